// C02: typed access to a Dictionary is exact; a failing access throws, reports and changes nothing.
#include "model.hpp"

using namespace model;
using NeoFOAM::Dictionary;

namespace
{
MDict genDict(pbt::Gen& g, size_t maxN)
{
    MDict m;
    size_t n = g.size(0, maxN);
    for (size_t i = 0; i < n; i++)
    {
        auto k = genKey(g);
        m[k] = genVal(g, 2);
    }
    return m;
}

template<typename D>
void accessAs(pbt::Gen& g, D& d, const MDict& m, const std::string& k, Kind want, bool diag)
{
    auto it = m.find(k);
    const bool present = it != m.end();
    const bool match = present && it->second.kind == want;
    g.note("get<", kindName(want), ">(", k, ") on ", present ? show(it->second) : std::string("a missing key"));
    std::string err;
    withType(
        want,
        [&]<typename T>()
        {
            Capture cap(2);
            if (match)
            {
                auto& r = d.template get<T>(k);
                const void* inside = std::any_cast<T>(&d.getMap().at(k));
                PBT_CHECK(
                    static_cast<const void*>(&r) == inside, "get<T>(", k, ") is not a reference to the stored value"
                );
                err = cap.stop();
                PBT_CHECK(err.empty(), "a successful access wrote a diagnostic: ", err);
                compare(d.getMap().at(k), it->second, "value of " + k);
                return;
            }
            bool ok = false;
            try
            {
                (void)d.template get<T>(k);
            }
            catch (const std::out_of_range&)
            {
                ok = !present;
            }
            catch (const std::bad_any_cast&)
            {
                ok = present;
            }
            err = cap.stop();
            PBT_CHECK(
                ok, "get<", kindName(want), ">(", k, ") on ", present ? "a value of another type" : "a missing key",
                " did not throw ", present ? "std::bad_any_cast" : "std::out_of_range"
            );
            if (!diag) return;
            PBT_CHECK(err.find(k) != std::string::npos, "the diagnostic does not name the key ", k, ": ", err);
            if (!present)
            {
                for (auto& [kk, vv] : m)
                    PBT_CHECK(
                        err.find(kk) != std::string::npos, "the diagnostic does not list the available key ", kk
                    );
            }
            else
            {
                auto req = NeoFOAM::demangle(typeid(T).name());
                auto act = NeoFOAM::demangle(d.getMap().at(k).type().name());
                PBT_CHECK(err.find(req) != std::string::npos, "the diagnostic does not name the requested type");
                PBT_CHECK(err.find(act) != std::string::npos, "the diagnostic does not name the stored type");
            }
        }
    );
}

template<typename D>
void subAccess(pbt::Gen& g, D& d, const MDict& m, const std::string& k)
{
    auto it = m.find(k);
    g.note("subDict(", k, ") on ", it == m.end() ? std::string("a missing key") : show(it->second));
    if (it == m.end()) PBT_THROWS(std::out_of_range, d.subDict(k), k);
    else if (it->second.kind != Dict) PBT_THROWS(std::bad_any_cast, d.subDict(k), k);
    else
    {
        auto& s = d.subDict(k);
        PBT_CHECK(
            static_cast<const void*>(&s) == std::any_cast<Dictionary>(&d.getMap().at(k)),
            "subDict(", k, ") is not a reference to the nested dictionary"
        );
        compareDict(const_cast<Dictionary&>(s), *it->second.dict, "subDict " + k);
    }
}
}

PBT(typedAccess, 160000, 500000, "an access to a missing key or with another type than the stored one")
{
    auto m = genDict(g, 12);
    auto d = toDict(m);
    const Dictionary& cd = d;
    size_t n = g.size(1, 8);
    for (size_t i = 0; i < n; i++)
    {
        std::string k;
        if (!m.empty() && g.chance(3, 4))
        {
            auto it = m.begin();
            std::advance(it, static_cast<long>(g.index(m.size())));
            k = it->first;
            // near misses of a stored key
            switch (g.weighted({6, 1, 1, 1}))
            {
            case 1:
                k += g.boolean() ? " " : "1";
                break;
            case 2:
                if (!k.empty()) k.pop_back();
                break;
            case 3:
                for (auto& c : k) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
                break;
            default:
                break;
            }
        }
        else k = genKey(g);
        bool present = m.count(k);
        Kind want = present && g.boolean() ? m[k].kind : static_cast<Kind>(g.index(KINDS - 1));
        if (want == Empty) want = Int;
        if (!present || m[k].kind != want) g.nontrivial();
        g.label(!present ? "missing key" : m[k].kind == want ? "right type" : "wrong type");
        bool isConst = g.boolean();
        bool clean = true;
        for (char c : k) clean = clean && c > 32 && c < 127;
        switch (g.weighted({5, 2, 1, 1}))
        {
        case 0:
            if (isConst) accessAs(g, cd, m, k, want, clean);
            else accessAs(g, d, m, k, want, clean);
            break;
        case 1:
            if (isConst) subAccess(g, cd, m, k);
            else subAccess(g, d, m, k);
            break;
        case 2:
            g.note("operator[](", k, ")");
            if (present)
            {
                PBT_CHECK(&d[k] == &d.getMap().at(k), "operator[] is not the stored value of ", k);
                PBT_CHECK(&cd[k] == &d.getMap().at(k), "const operator[] is not the stored value of ", k);
            }
            else if (isConst) PBT_THROWS(std::out_of_range, cd[k], k);
            else PBT_THROWS(std::out_of_range, d[k], k);
            break;
        default:
            g.note("contains/isDict(", k, ")");
            PBT_CHECK(d.contains(k) == present, "contains(", k, ")");
            PBT_CHECK(d.isDict(k) == (present && m[k].kind == Dict), "isDict(", k, ")");
            break;
        }
        compareDict(d, m, "after access " + std::to_string(i));
    }
}

PBT(writeThrough, 32000, 400000, "a value two or more levels deep is modified through references")
{
    // nested references alias the stored values: a write shows through every path to it
    MDict m;
    size_t depth = static_cast<size_t>(g.range(1, 4));
    std::vector<std::string> path;
    for (size_t i = 0; i < depth; i++) path.push_back(genKey(g));
    std::string leaf = genKey(g);
    Val v;
    v.kind = static_cast<Kind>(g.index(2)); // int or string
    v.i = g.range(0, 9);
    v.s = "s";
    MDict cur;
    cur[leaf] = v;
    for (size_t i = depth; i-- > 0;)
    {
        MDict up = genDict(g, 3);
        Val n;
        n.kind = Dict;
        n.dict = std::make_shared<MDict>(cur);
        up[path[i]] = n;
        cur = up;
    }
    auto d = toDict(cur);
    Dictionary before(d); // must not change
    MDict beforeM = deep(cur);
    Dictionary* r = &d;
    MDict* mr = &cur;
    for (auto& k : path)
    {
        r = g.boolean() ? &r->subDict(k) : &r->get<Dictionary>(k);
        mr = (*mr)[k].dict.get();
    }
    g.note("depth ", depth, " leaf ", leaf);
    if (v.kind == Int)
    {
        r->get<int>(leaf) = 100;
        (*mr)[leaf].i = 100;
    }
    else
    {
        r->get<std::string>(leaf) = "changed";
        (*mr)[leaf].s = "changed";
    }
    if (g.boolean())
    {
        auto k = genKey(g);
        auto nv = genVal(g, 1);
        r->insert(k, toAny(nv));
        (*mr)[k] = deep(nv);
    }
    if (depth >= 2) g.nontrivial();
    compareDict(d, cur, "written through");
    compareDict(before, beforeM, "copy taken before the write");
}
