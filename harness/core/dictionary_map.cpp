// C01: a Dictionary is a string-keyed map of values: last write wins, copies are independent.
#include "model.hpp"

using namespace model;
using NeoFOAM::Dictionary;

namespace
{

struct Slot
{
    Dictionary d;
    MDict m;
};

// a nested dictionary reached by following subDict() from a root
Dictionary* descend(pbt::Gen& g, Slot& s, MDict*& m, std::string& path)
{
    Dictionary* d = &s.d;
    m = &s.m;
    for (int lvl = 0; lvl < 3; lvl++)
    {
        std::vector<std::string> subs;
        for (auto& [k, v] : *m)
            if (v.kind == Dict) subs.push_back(k);
        if (subs.empty() || !g.chance(2, 3)) break;
        auto k = g.pick(subs);
        path += "/" + k;
        if (g.boolean()) d = &d->subDict(k);
        else d = &d->get<Dictionary>(k);
        m = (*m)[k].dict.get();
    }
    return d;
}

std::string existingOrNew(pbt::Gen& g, const MDict& m)
{
    if (!m.empty() && g.chance(2, 3))
    {
        auto it = m.begin();
        std::advance(it, static_cast<long>(g.index(m.size())));
        return it->first;
    }
    return genKey(g);
}

void history(pbt::Gen& g, size_t maxOps, bool bulk)
{
    std::vector<std::unique_ptr<Slot>> slots;
    slots.push_back(std::make_unique<Slot>());
    bool copied = false, wroteAfterCopy = false, removed = false, overwrote = false;
    size_t ops = g.size(1, maxOps);
    auto verify = [&](const std::string& after)
    {
        for (size_t i = 0; i < slots.size(); i++)
            compareDict(slots[i]->d, slots[i]->m, after + ": dict" + std::to_string(i));
    };
    if (bulk)
    {
        size_t n = static_cast<size_t>(g.range(20, 400));
        auto& s = *slots[0];
        for (size_t i = 0; i < n; i++)
        {
            Val v;
            v.i = static_cast<int64_t>(i);
            std::string k = "k" + std::to_string(i);
            s.d.insert(k, toAny(v));
            s.m[k] = v;
        }
        g.note("bulk insert of ", n, " keys");
        verify("bulk insert");
        ops = std::min<size_t>(ops, 12);
    }
    for (size_t op = 0; op < ops; op++)
    {
        size_t si = g.index(slots.size());
        Slot& s = *slots[si];
        MDict* m = nullptr;
        std::string path = "dict" + std::to_string(si);
        std::string what;
        switch (g.weighted({8, 4, 4, 2, 2, 2, 1, 2, 2, 1, 2}))
        {
        case 0:
        {
            Dictionary* d = descend(g, s, m, path);
            auto k = existingOrNew(g, *m);
            auto v = genVal(g);
            what = path + ".insert(" + k + ", " + show(v) + ")";
            if (m->count(k)) overwrote = true;
            if (copied) wroteAfterCopy = true;
            d->insert(k, toAny(v));
            (*m)[k] = deep(v);
            break;
        }
        case 1:
        {
            Dictionary* d = descend(g, s, m, path);
            auto k = existingOrNew(g, *m);
            what = path + ".remove(" + k + ")";
            if (m->count(k)) removed = true;
            if (copied) wroteAfterCopy = true;
            d->remove(k);
            m->erase(k);
            break;
        }
        case 2: // write through operator[]
        {
            Dictionary* d = descend(g, s, m, path);
            if (m->empty()) continue;
            auto it = m->begin();
            std::advance(it, static_cast<long>(g.index(m->size())));
            auto v = genVal(g);
            what = path + "[" + it->first + "] = " + show(v);
            if (copied) wroteAfterCopy = true;
            (*d)[it->first] = toAny(v);
            it->second = deep(v);
            break;
        }
        case 3: // copy construction
        {
            if (slots.size() >= 5) continue;
            auto n = std::make_unique<Slot>(Slot {Dictionary(s.d), deep(s.m)});
            slots.push_back(std::move(n));
            copied = true;
            what = path + " copied";
            break;
        }
        case 4: // copy assignment, possibly to itself
        {
            size_t t = g.index(slots.size());
            what = "dict" + std::to_string(t) + " = " + path;
            Dictionary& src = s.d;
            slots[t]->d = src;
            slots[t]->m = deep(s.m);
            copied = true;
            break;
        }
        case 5: // move construction, the source is assigned afresh
        {
            Dictionary tmp(std::move(s.d));
            s.d = tmp;
            what = path + " moved out and assigned back";
            copied = true;
            break;
        }
        case 6: // from a map / from an initializer list of distinct keys
        {
            auto v1 = genVal(g), v2 = genVal(g);
            auto k1 = genKey(g), k2 = genKey(g);
            if (k1 == k2) k2 += "2";
            auto n = std::make_unique<Slot>();
            if (g.boolean())
            {
                std::unordered_map<std::string, std::any> um;
                um.emplace(k1, toAny(v1));
                um.emplace(k2, toAny(v2));
                n->d = Dictionary(um);
            }
            else n->d = Dictionary({{k1, toAny(v1)}, {k2, toAny(v2)}});
            n->m[k1] = deep(v1);
            n->m[k2] = deep(v2);
            what = "dict" + std::to_string(si) + " built from a list of two pairs";
            slots[si] = std::move(n);
            break;
        }
        case 7: // insert one dictionary into another (possibly itself): stored by value
        {
            size_t t = g.index(slots.size());
            auto k = existingOrNew(g, s.m);
            what = path + ".insert(" + k + ", dict" + std::to_string(t) + ")";
            if (s.m.size() + slots[t]->m.size() > 60 && !bulk) continue;
            Val v;
            v.kind = Dict;
            v.dict = std::make_shared<MDict>(deep(slots[t]->m));
            size_t budget = 0;
            std::function<void(const MDict&)> count = [&](const MDict& x)
            {
                budget += x.size();
                for (auto& [kk, vv] : x)
                    if (vv.dict) count(*vv.dict);
            };
            count(*v.dict);
            if (budget > 500) continue;
            s.d.insert(k, slots[t]->d);
            s.m[k] = v;
            copied = true;
            break;
        }
        case 8: // store a value under a second key, reading it from the same dictionary
        {
            Dictionary* d = descend(g, s, m, path);
            if (m->empty()) continue;
            auto it = m->begin();
            std::advance(it, static_cast<long>(g.index(m->size())));
            auto from = it->first;
            auto k = existingOrNew(g, *m);
            what = path + ".insert(" + k + ", " + path + "[" + from + "])";
            Val v = deep(it->second);
            d->insert(k, (*d)[from]);
            (*m)[k] = v;
            break;
        }
        case 9: // through the underlying map
        {
            Dictionary* d = descend(g, s, m, path);
            auto k = existingOrNew(g, *m);
            auto v = genVal(g);
            what = path + ".getMap()[" + k + "] = " + show(v);
            d->getMap()[k] = toAny(v);
            (*m)[k] = deep(v);
            break;
        }
        default: // a reference stays bound to its entry while other keys come and go
        {
            if (slots[si]->m.count("ref") && slots[si]->m["ref"].kind == Dict) continue;
            Val v;
            v.i = g.range(0, 50);
            s.d.insert("ref", toAny(v));
            s.m["ref"] = v;
            int& r = s.d.get<int>("ref");
            size_t n = g.size(1, 80);
            for (size_t i = 0; i < n; i++)
            {
                auto k = "r" + std::to_string(i);
                Val w;
                w.i = int64_t(i);
                s.d.insert(k, toAny(w));
                s.m[k] = w;
            }
            r += 1;
            s.m["ref"].i += 1;
            for (size_t i = 0; i + 2 < n; i++)
            {
                auto k = "r" + std::to_string(i);
                s.d.remove(k);
                s.m.erase(k);
            }
            r += 1;
            s.m["ref"].i += 1;
            what = path + ": reference held across " + std::to_string(n) + " inserts and removals";
            break;
        }
        }
        g.note(what);
        verify(what);
    }
    if (overwrote) g.label("overwrite of an existing key");
    if (removed) g.label("remove of an existing key");
    if (copied) g.label("copy");
    if (wroteAfterCopy) g.label("write after copy");
    if (overwrote || removed || wroteAfterCopy || bulk) g.nontrivial();
}

} // namespace

PBT(histories, 96000, 1200000, "an existing key is overwritten or removed, or a copy is followed by a write")
{
    history(g, 40, false);
}

PBT(large, 4500, 36000, "at least 20 keys in one dictionary")
{
    history(g, 12, true);
}
