// C05: every document has an identity of its own and passes its validator.
#include "model.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <thread>

using namespace model;
using NeoFOAM::Dictionary;
using NeoFOAM::Document;

namespace
{
std::set<std::string>& seen()
{
    static std::set<std::string> s; // ids generated so far in this process
    return s;
}

void checkNewId(const Document& d, const std::string& how)
{
    auto id = d.id();
    PBT_CHECK(!id.empty(), how, ": the generated id is empty");
    PBT_CHECK(seen().insert(id).second, how, ": the generated id ", id, " was handed out before");
}
}

PBT(histories, 80000, 800000, "a document is rejected, copied, or keeps an id given by the user")
{
    struct Slot
    {
        std::unique_ptr<Document> d;
        MDict m;
        std::vector<std::string> required; // what the validator asks for
        bool defaultValidator;
    };
    std::vector<Slot> docs;
    size_t ops = g.size(1, 24);
    bool nt = false;
    auto valid = [](const Slot& s)
    {
        for (auto& k : s.required)
            if (!s.m.count(k)) return false;
        return !s.defaultValidator || s.m.count("id");
    };
    for (size_t op = 0; op < ops; op++)
    {
        std::string what;
        switch (g.weighted({6, 1, 3, 4, 2, 3, 1}))
        {
        case 0: // with content and possibly a validator
        {
            Slot s;
            size_t n = g.size(0, 5);
            for (size_t i = 0; i < n; i++)
            {
                auto k = genKey(g);
                s.m[k] = genVal(g, 1);
            }
            bool ownId = g.chance(1, 4);
            if (ownId)
            {
                Val v;
                v.kind = Str;
                v.s = g.text(10);
                s.m["id"] = v;
            }
            else s.m.erase("id");
            auto dict = toDict(s.m);
            auto calls = std::make_shared<int>(0);
            s.defaultValidator = g.boolean();
            if (!s.defaultValidator)
            {
                size_t r = g.size(0, 3);
                for (size_t i = 0; i < r; i++)
                {
                    if (!s.m.empty() && g.chance(4, 5))
                    {
                        auto it = s.m.begin();
                        std::advance(it, static_cast<long>(g.index(s.m.size())));
                        s.required.push_back(it->first);
                    }
                    else s.required.push_back(g.boolean() ? "id" : genKey(g));
                }
            }
            auto required = s.required;
            NeoFOAM::DocumentValidator val = [required, calls](const Dictionary& d)
            {
                ++*calls;
                for (auto& k : required)
                    if (!d.contains(k)) return false;
                return true;
            };
            MDict withId = s.m;
            if (!ownId)
            {
                Val v;
                v.kind = Str;
                withId["id"] = v;
            }
            bool ok = true;
            for (auto& k : required) ok = ok && withId.count(k);
            what = std::string("Document of ") + std::to_string(s.m.size()) + " entries" + (ownId ? ", id given" : "")
                 + (s.defaultValidator ? "" : ", validator asks for " + std::to_string(required.size()) + " keys")
                 + (ok ? "" : " of which some are missing");
            g.note(what);
            try
            {
                s.d = s.defaultValidator ? std::make_unique<Document>(dict) : std::make_unique<Document>(dict, val);
                PBT_CHECK(ok, "a document its validator rejects was created");
            }
            catch (const std::runtime_error& e)
            {
                PBT_CHECK(!ok, "a valid document was rejected: ", e.what());
                nt = true;
                g.label("rejected");
                break;
            }
            if (!s.defaultValidator) PBT_CHECK(*calls >= 1, "the validator was never consulted");
            if (ownId)
            {
                PBT_CHECK(s.d->id() == s.m["id"].s, "the id given by the user was replaced by ", s.d->id());
                nt = true;
                g.label("id given");
            }
            else checkNewId(*s.d, what);
            withId["id"].s = s.d->id();
            s.m = withId;
            docs.push_back(std::move(s));
            break;
        }
        case 1:
        {
            Slot s;
            s.d = std::make_unique<Document>();
            s.defaultValidator = true;
            what = "Document()";
            checkNewId(*s.d, what);
            Val v;
            v.kind = Str;
            v.s = s.d->id();
            s.m["id"] = v;
            docs.push_back(std::move(s));
            break;
        }
        case 2: // copy: same identity, same validator, own content
        {
            if (docs.empty() || docs.size() > 8) continue;
            size_t i = g.index(docs.size());
            Slot s;
            s.d = std::make_unique<Document>(*docs[i].d);
            s.m = deep(docs[i].m);
            s.required = docs[i].required;
            s.defaultValidator = docs[i].defaultValidator;
            what = "copy of document " + std::to_string(i);
            nt = true;
            g.label("copied");
            docs.push_back(std::move(s));
            break;
        }
        case 3:
        {
            if (docs.empty()) continue;
            auto& s = docs[g.index(docs.size())];
            auto k = genKey(g);
            auto v = genVal(g, 1);
            what = "insert(" + k + ", " + show(v) + ")";
            s.d->insert(k, toAny(v));
            s.m[k] = deep(v);
            break;
        }
        case 4:
        {
            if (docs.empty()) continue;
            auto& s = docs[g.index(docs.size())];
            std::vector<std::string> ks;
            for (auto& [k, v] : s.m)
                if (k != "id") ks.push_back(k);
            if (ks.empty()) continue;
            auto k = g.pick(ks);
            what = "remove(" + k + ")";
            s.d->remove(k);
            s.m.erase(k);
            break;
        }
        case 5: // validate() reflects the present content
        {
            if (docs.empty()) continue;
            auto& s = docs[g.index(docs.size())];
            bool ok = valid(s);
            what = std::string("validate() of a ") + (ok ? "valid" : "now invalid") + " document";
            g.note(what);
            try
            {
                bool r = s.d->validate();
                PBT_CHECK(r && ok, "validate() accepted an invalid document");
            }
            catch (const std::runtime_error&)
            {
                PBT_CHECK(!ok, "validate() rejected a valid document");
                nt = true;
                g.label("became invalid");
            }
            break;
        }
        default:
        {
            if (docs.size() < 2) continue;
            size_t i = g.index(docs.size()), j = g.index(docs.size());
            what = "assign document " + std::to_string(i) + " to " + std::to_string(j);
            Document& src = *docs[i].d;
            *docs[j].d = src;
            docs[j].m = deep(docs[i].m);
            docs[j].required = docs[i].required;
            docs[j].defaultValidator = docs[i].defaultValidator;
            break;
        }
        }
        if (what.empty()) continue;
        g.note(what);
        for (size_t i = 0; i < docs.size(); i++)
        {
            compareDict(*docs[i].d, docs[i].m, what + ": doc" + std::to_string(i));
            if (docs[i].m["id"].kind == Str)
                PBT_CHECK(docs[i].d->id() == docs[i].m["id"].s, what, ": id() is ", docs[i].d->id());
            if (docs[i].m.count("name") && docs[i].m["name"].kind == Str)
                PBT_CHECK(NeoFOAM::name(*docs[i].d) == docs[i].m["name"].s, what, ": name()");
        }
    }
    if (nt) g.nontrivial();
}

PBT(named, 30000, 300000, "the name is changed through the accessor")
{
    Dictionary d;
    auto n1 = g.text(20), n2 = g.text(20);
    d.insert("name", n1);
    size_t extra = g.size(0, 5);
    for (size_t i = 0; i < extra; i++) d.insert("x" + std::to_string(i), int(i));
    Document doc(d);
    const Document& cd = doc;
    g.note("name ", n1, " -> ", n2);
    PBT_CHECK(NeoFOAM::name(doc) == n1 && NeoFOAM::name(cd) == n1, "name()");
    NeoFOAM::name(doc) = n2;
    PBT_CHECK(NeoFOAM::name(cd) == n2 && doc.get<std::string>("name") == n2, "name() is not a reference to the entry");
    if (n1 != n2) g.nontrivial();
}

PBT(manyIds, 24, 60, "more than 60000 documents are created one after the other")
{
    size_t n = static_cast<size_t>(g.range(2, 90000));
    g.note(n, " documents");
    if (n > 60000) g.nontrivial();
    for (size_t i = 0; i < n; i++)
    {
        Document d;
        checkNewId(d, "document " + std::to_string(i));
    }
}
