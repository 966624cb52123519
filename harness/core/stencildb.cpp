// C10: what was cached stays cached, under its key, with its type.
#include "model.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"

using namespace model;
using NeoFOAM::StencilDataBase;

PBT(histories, 160000, 1600000, "a key is stored twice, or an access fails")
{
    std::vector<std::unique_ptr<StencilDataBase>> dbs;
    std::vector<MDict> ms;
    dbs.push_back(std::make_unique<StencilDataBase>());
    ms.emplace_back();
    bool nt = false;
    size_t ops = g.size(1, 40);
    std::map<std::string, const std::any*> addr;
    for (size_t op = 0; op < ops; op++)
    {
        size_t i = g.index(dbs.size());
        auto& db = *dbs[i];
        const StencilDataBase& cdb = db;
        auto& m = ms[i];
        auto k = !m.empty() && g.boolean() ? std::next(m.begin(), static_cast<long>(g.index(m.size())))->first : genKey(g);
        bool present = m.count(k);
        std::string what;
        switch (g.weighted({5, 4, 2, 1, 2}))
        {
        case 0: // insert: the first value stored under a key stays
        {
            auto v = genVal(g, 1);
            if (v.kind == Empty) v.kind = Int;
            what = "insert(" + k + ", " + show(v) + ")";
            auto a = toAny(v);
            withType(v.kind, [&]<typename T>() { db.insert(k, std::any_cast<T>(a)); });
            if (!present) m[k] = deep(v);
            else
            {
                nt = true;
                g.label("stored twice");
            }
            break;
        }
        case 1: // typed access
        {
            Kind want = present && g.chance(2, 3) ? m[k].kind : static_cast<Kind>(g.index(KINDS - 1));
            if (want == Empty) want = Int; // an empty any holds no type
            what = std::string("get<") + kindName(want) + ">(" + k + ")";
            bool match = present && m[k].kind == want;
            withType(
                want,
                [&]<typename T>()
                {
                    if (match)
                    {
                        auto& r = db.get<T>(k);
                        auto& cr = cdb.get<T>(k);
                        PBT_CHECK(&r == &cr, what, ": const and non-const access differ");
                        PBT_CHECK(&r == std::any_cast<T>(&db[k]), what, ": not a reference to the stored value");
                        if constexpr (std::is_same_v<T, int>)
                        {
                            r++;
                            m[k].i++;
                        }
                    }
                    else if (!present)
                    {
                        PBT_THROWS(std::out_of_range, db.get<T>(k), what);
                        PBT_THROWS(std::out_of_range, cdb.get<T>(k), what);
                    }
                    else
                    {
                        PBT_THROWS(std::bad_any_cast, db.get<T>(k), what);
                        PBT_THROWS(std::bad_any_cast, cdb.get<T>(k), what);
                    }
                }
            );
            if (!match) nt = true;
            break;
        }
        case 2:
            what = "look up " + k;
            PBT_CHECK(db.contains(k) == present, what, ": contains()");
            if (!present)
            {
                PBT_THROWS(std::out_of_range, db[k], what);
                PBT_THROWS(std::out_of_range, cdb[k], what);
                nt = true;
            }
            break;
        case 3:
            if (dbs.size() >= 3) continue;
            what = "copy";
            dbs.push_back(std::make_unique<StencilDataBase>(db));
            ms.push_back(deep(m));
            break;
        default: // overwrite through operator[]
        {
            if (!present) continue;
            auto v = genVal(g, 1);
            what = "db[" + k + "] = " + show(v);
            db[k] = toAny(v);
            m[k] = deep(v);
            break;
        }
        }
        g.note(what);
        for (size_t j = 0; j < dbs.size(); j++)
        {
            for (auto& [kk, v] : ms[j])
            {
                PBT_CHECK(dbs[j]->contains(kk), what, ": contains(", kk, ")");
                compare((*dbs[j])[kk], v, what + ": " + kk);
                PBT_CHECK(&(*dbs[j])[kk] == &std::as_const(*dbs[j])[kk], what, ": const operator[] of ", kk);
            }
        }
        // a cached object keeps its address while others are stored
        for (auto& [kk, v] : ms[0])
        {
            auto* p = &(*dbs[0])[kk];
            auto [it, fresh] = addr.emplace(kk, p);
            PBT_CHECK(fresh || it->second == p, what, ": the entry ", kk, " moved");
        }
    }
    if (nt) g.nontrivial();
}
