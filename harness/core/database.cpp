// C06, C07: the database of collections and the collections of documents.
#include "model.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/document.hpp"

using namespace model;
using NeoFOAM::Collection;
using NeoFOAM::Database;
using NeoFOAM::Dictionary;
using NeoFOAM::Document;

namespace
{

// two kinds of collection, written the way the project's own are
template<int N>
class Doc
{
public:

    Doc(const std::string& name, int value, const std::string& id = "") : doc_(make(name, value, id)) {}

    Document& doc() { return doc_; }
    const Document& doc() const { return doc_; }
    std::string id() const { return doc_.id(); }
    static std::string typeName() { return N == 0 ? "AlphaDocument" : "BetaDocument"; }

private:

    static Document make(const std::string& name, int value, const std::string& id)
    {
        Dictionary d;
        d.insert("name", name);
        d.insert("value", value);
        if (!id.empty()) d.insert("id", id);
        return Document(d, [](const Dictionary& x) { return x.contains("name") && x.contains("value"); });
    }

    Document doc_;
};

template<int N>
class Col : public NeoFOAM::CollectionMixin<Doc<N>>
{
public:

    Col(Database& db, std::string name) : NeoFOAM::CollectionMixin<Doc<N>>(db, name) {}

    bool contains(const std::string& id) const { return this->docs_.contains(id); }

    std::string insert(const Doc<N>& d)
    {
        auto id = d.id();
        if (contains(id)) return "";
        this->docs_.emplace(id, d);
        return id;
    }

    bool remove(const std::string& id) { return this->docs_.erase(id) > 0; }

    static Col& instance(Database& db, std::string name)
    {
        Collection& col = db.insert(name, Col(db, name));
        return col.template as<Col>();
    }
};

struct MDoc
{
    std::string name;
    int value;
};

struct MCol
{
    int kind;
    std::string name;
    std::map<std::string, MDoc> docs;
    Collection* address = nullptr;
    void* typed = nullptr;
};

template<int N>
void checkTyped(Col<N>& c, const MCol& m, Database& db, const std::string& where)
{
    PBT_CHECK(c.size() == m.docs.size(), where, ": size() is ", c.size(), ", model has ", m.docs.size());
    PBT_CHECK(c.name() == m.name, where, ": name() is ", c.name(), ", model says ", m.name);
    PBT_CHECK(c.type() == Doc<N>::typeName(), where, ": type() is ", c.type());
    PBT_CHECK(&c.db() == &db, where, ": db()");
    PBT_CHECK(&std::as_const(c).db() == &db, where, ": const db()");
    std::vector<std::string> want;
    for (auto& [k, v] : m.docs) want.push_back(k);
    PBT_CHECK(c.sortedKeys() == want, where, ": sortedKeys()");
    for (auto& [k, v] : m.docs)
    {
        PBT_CHECK(c.contains(k), where, ": contains(", k, ")");
        Document& d = c.doc(k);
        PBT_CHECK(d.id() == k, where, ": doc(", k, ") has id ", d.id());
        PBT_CHECK(&d == &std::as_const(c).doc(k), where, ": const doc(", k, ") is another document");
        PBT_CHECK(d.get<std::string>("name") == v.name, where, ": name of ", k);
        PBT_CHECK(d.get<int>("value") == v.value, where, ": value of ", k);
    }
}

// query results are compared as multisets: the order is unspecified, duplicates are not
template<typename C>
void checkFind(C& c, const MCol& m, const std::function<bool(const MDoc&)>& mp, const std::function<bool(const Document&)>& p, const std::string& where)
{
    std::vector<std::string> want;
    for (auto& [k, v] : m.docs)
        if (mp(v)) want.push_back(k);
    size_t calls = 0;
    std::vector<std::string> got = c.find(
        [&](const Document& d)
        {
            calls++;
            return p(d);
        }
    );
    std::sort(got.begin(), got.end());
    PBT_CHECK(got == want, where, ": find() returned ", got.size(), " documents, ", want.size(), " match");
}

void findAll(pbt::Gen& g, Collection& c, const MCol& m, const std::string& where)
{
    int which = static_cast<int>(g.index(6));
    int x = static_cast<int>(g.range(-2, 12));
    std::string nm(1, static_cast<char>('a' + g.index(4)));
    std::function<bool(const MDoc&)> mp;
    std::function<bool(const Document&)> p;
    switch (which)
    {
    case 0:
        mp = [](auto&) { return true; };
        p = [](auto&) { return true; };
        break;
    case 1:
        mp = [](auto&) { return false; };
        p = [](auto&) { return false; };
        break;
    case 2:
        mp = [x](auto& d) { return d.value < x; };
        p = [x](const Document& d) { return d.get<int>("value") < x; };
        break;
    case 3:
        mp = [nm](auto& d) { return d.name == nm; };
        p = [nm](const Document& d) { return d.get<std::string>("name") == nm; };
        break;
    case 4:
        mp = [nm, x](auto& d) { return d.name == nm && d.value >= x; };
        p = [nm, x](const Document& d) { return NeoFOAM::name(d) == nm && d.get<int>("value") >= x; };
        break;
    default:
        mp = [](auto& d) { return (d.value & 1) != 0; };
        p = [](const Document& d) { return (d.get<int>("value") & 1) != 0; };
        break;
    }
    g.note(where, ".find(#", which, ")");
    g.label("find");
    checkFind(c, m, mp, p, where + " (erased)");
    if (m.kind == 0) checkFind(c.as<Col<0>>(), m, mp, p, where);
    else checkFind(c.as<Col<1>>(), m, mp, p, where);
    const Collection& cc = c;
    checkFind(cc, m, mp, p, where + " (const)");
}

void checkErased(Collection& c, const MCol& m, Database& db, const std::string& where)
{
    const Collection& cc = c;
    PBT_CHECK(c.size() == m.docs.size(), where, ": erased size() ", c.size());
    PBT_CHECK(c.name() == m.name, where, ": erased name() ", c.name());
    PBT_CHECK(c.type() == (m.kind == 0 ? "AlphaDocument" : "BetaDocument"), where, ": erased type() ", c.type());
    PBT_CHECK(&c.db() == &db && &cc.db() == &db, where, ": erased db()");
    for (auto& [k, v] : m.docs)
    {
        PBT_CHECK(c.doc(k).id() == k && cc.doc(k).id() == k, where, ": erased doc(", k, ")");
        PBT_CHECK(c.doc(k).get<int>("value") == v.value, where, ": erased value of ", k);
    }
    PBT_THROWS(std::out_of_range, c.doc("no such document"), where);
    PBT_THROWS(std::out_of_range, cc.doc("no such document"), where);
    if (m.kind == 0)
    {
        checkTyped(c.as<Col<0>>(), m, db, where);
        PBT_THROWS(std::bad_cast, c.as<Col<1>>(), where);
        PBT_THROWS(std::bad_cast, cc.as<Col<1>>(), where);
        PBT_CHECK(&c.as<Col<0>>() == &cc.as<Col<0>>(), where, ": const as<>");
        PBT_CHECK(!m.typed || m.typed == &c.as<Col<0>>(), where, ": the collection object moved");
    }
    else
    {
        checkTyped(c.as<Col<1>>(), m, db, where);
        PBT_THROWS(std::bad_cast, c.as<Col<0>>(), where);
        PBT_CHECK(&c.as<Col<1>>() == &cc.as<Col<1>>(), where, ": const as<>");
        PBT_CHECK(!m.typed || m.typed == &c.as<Col<1>>(), where, ": the collection object moved");
    }
}

std::string colKey(pbt::Gen& g)
{
    static const std::vector<std::string> names {"c1", "c2", "c3", "fields", "Fields", "c1 ", ""};
    switch (g.weighted({7, 2, 1}))
    {
    case 0:
        return g.pick(names);
    case 1:
        return "col" + std::to_string(g.range(0, 40));
    default:
        return g.text(20);
    }
}

void history(pbt::Gen& g, size_t maxOps, bool documents)
{
    Database db;
    std::map<std::string, MCol> m;
    size_t ops = g.size(1, maxOps);
    bool dup = false, removed = false, found = false, wrong = false, edited = false;
    auto verify = [&](const std::string& after)
    {
        PBT_CHECK(db.size() == m.size(), after, ": the database has ", db.size(), " collections, the model ", m.size());
        for (auto& [k, c] : m)
        {
            PBT_CHECK(db.contains(k), after, ": contains(", k, ")");
            Collection& col = db.at(k);
            const Database& cdb = db;
            PBT_CHECK(&cdb.at(k) == &col, after, ": const at(", k, ")");
            PBT_CHECK(&col == c.address, after, ": the collection registered as ", k, " is another object now");
            checkErased(col, c, db, after + ": " + k);
            if (c.kind == 0)
            {
                PBT_CHECK(&db.at<Col<0>>(k) == &col.as<Col<0>>(), after, ": at<>(", k, ")");
                PBT_THROWS(std::bad_cast, db.at<Col<1>>(k), after);
            }
            else
            {
                PBT_CHECK(&db.at<Col<1>>(k) == &col.as<Col<1>>(), after, ": at<>(", k, ")");
                PBT_THROWS(std::bad_cast, db.at<Col<0>>(k), after);
            }
        }
    };
    for (size_t op = 0; op < ops; op++)
    {
        std::string what;
        switch (documents ? g.weighted({3, 1, 1, 1, 12, 4, 6, 4, 1}) : g.weighted({7, 4, 3, 4, 3, 1, 1, 1, 2}))
        {
        case 0: // register a collection
        case 3: // the way the collections' own instance() does
        {
            auto k = colKey(g);
            int kind = static_cast<int>(g.index(2));
            bool viaInstance = g.boolean();
            auto inner = viaInstance || g.chance(3, 4) ? k : "inner_" + k;
            what = std::string("register ") + (kind ? "Beta" : "Alpha") + " as " + k + (viaInstance ? " (instance)" : "");
            bool existed = m.count(k);
            if (viaInstance && existed && m[k].kind != kind)
            {
                wrong = true;
                if (kind == 0) PBT_THROWS(std::bad_cast, Col<0>::instance(db, k), what);
                else PBT_THROWS(std::bad_cast, Col<1>::instance(db, k), what);
                break;
            }
            Collection* c = nullptr;
            void* typed = nullptr;
            // the new collection already holds a document: it must not replace an existing one
            std::string newId;
            if (kind == 0)
            {
                if (viaInstance) typed = &Col<0>::instance(db, k);
                else
                {
                    Col<0> n(db, inner);
                    newId = n.insert(Doc<0>("pre", 1));
                    c = &db.insert(k, std::move(n));
                }
            }
            else
            {
                if (viaInstance) typed = &Col<1>::instance(db, k);
                else
                {
                    Col<1> n(db, inner);
                    newId = n.insert(Doc<1>("pre", 1));
                    c = &db.insert(k, std::move(n));
                }
            }
            if (existed)
            {
                dup = true;
                PBT_CHECK(!c || c == m[k].address, what, ": insert did not return the registered collection");
                PBT_CHECK(!typed || typed == m[k].typed, what, ": instance did not return the registered collection");
            }
            else
            {
                MCol n;
                n.kind = kind;
                n.name = inner;
                n.address = &db.at(k);
                PBT_CHECK(!c || c == n.address, what, ": insert returned another object than at()");
                if (!newId.empty()) n.docs[newId] = {"pre", 1};
                n.typed = kind == 0 ? static_cast<void*>(&n.address->as<Col<0>>()) : static_cast<void*>(&n.address->as<Col<1>>());
                PBT_CHECK(!typed || typed == n.typed, what, ": instance returned another object than at()");
                m[k] = n;
            }
            break;
        }
        case 1:
        {
            auto k = !m.empty() && g.chance(2, 3) ? std::next(m.begin(), static_cast<long>(g.index(m.size())))->first : colKey(g);
            what = "remove(" + k + ")";
            bool r = db.remove(k);
            PBT_CHECK(r == (m.count(k) > 0), what, " returned ", r);
            if (m.erase(k)) removed = true;
            PBT_CHECK(!db.contains(k), what, ": still there");
            break;
        }
        case 2:
        {
            auto k = colKey(g);
            what = "look up " + k;
            PBT_CHECK(db.contains(k) == (m.count(k) > 0), what, ": contains()");
            if (!m.count(k))
            {
                const Database& cdb = db;
                PBT_THROWS(std::out_of_range, db.at(k), what);
                PBT_THROWS(std::out_of_range, cdb.at(k), what);
                PBT_THROWS(std::out_of_range, db.at<Col<0>>(k), what);
                PBT_CHECK(!db.contains(k), what, ": a failed lookup created the collection");
            }
            break;
        }
        case 4: // insert a document
        {
            if (m.empty()) continue;
            auto it = std::next(m.begin(), static_cast<long>(g.index(m.size())));
            auto& c = it->second;
            MDoc d {std::string(1, static_cast<char>('a' + g.index(4))), static_cast<int>(g.range(0, 9))};
            std::string own = g.chance(1, 4) ? "own_" + std::to_string(g.range(0, 5)) : "";
            std::string id = c.kind == 0 ? db.at<Col<0>>(it->first).insert(Doc<0>(d.name, d.value, own))
                                         : db.at<Col<1>>(it->first).insert(Doc<1>(d.name, d.value, own));
            what = it->first + ".insert(" + d.name + ", " + std::to_string(d.value) + (own.empty() ? "" : ", id " + own) + ")";
            bool had = !own.empty() && c.docs.count(own);
            PBT_CHECK(id.empty() == had, what, ": insertion result");
            if (!had) c.docs[id] = d;
            break;
        }
        case 5: // edit a document in place, through either interface
        {
            if (m.empty()) continue;
            auto it = std::next(m.begin(), static_cast<long>(g.index(m.size())));
            auto& c = it->second;
            if (c.docs.empty()) continue;
            auto dit = std::next(c.docs.begin(), static_cast<long>(g.index(c.docs.size())));
            int v = static_cast<int>(g.range(0, 9));
            what = it->first + ".doc(" + dit->first + ").value = " + std::to_string(v);
            if (g.boolean()) db.at(it->first).doc(dit->first).get<int>("value") = v;
            else if (c.kind == 0) db.at<Col<0>>(it->first).doc(dit->first).insert("value", v);
            else db.at<Col<1>>(it->first).doc(dit->first).insert("value", v);
            dit->second.value = v;
            edited = true;
            break;
        }
        case 6:
        {
            if (m.empty()) continue;
            auto it = std::next(m.begin(), static_cast<long>(g.index(m.size())));
            what = "find in " + it->first;
            findAll(g, db.at(it->first), it->second, it->first);
            found = found || it->second.docs.size() > 1;
            break;
        }
        case 7: // remove a document
        {
            if (m.empty()) continue;
            auto it = std::next(m.begin(), static_cast<long>(g.index(m.size())));
            auto& c = it->second;
            if (c.docs.empty()) continue;
            auto dit = std::next(c.docs.begin(), static_cast<long>(g.index(c.docs.size())));
            what = it->first + ".remove(" + dit->first + ")";
            if (c.kind == 0) db.at<Col<0>>(it->first).remove(dit->first);
            else db.at<Col<1>>(it->first).remove(dit->first);
            c.docs.erase(dit);
            break;
        }
        default: // many more collections: the registered ones stay where they are
        {
            size_t n = g.size(1, 60);
            what = "register " + std::to_string(n) + " more collections";
            for (size_t i = 0; i < n; i++)
            {
                auto k = "bulk" + std::to_string(i);
                if (m.count(k)) continue;
                MCol c;
                c.kind = 0;
                c.name = k;
                c.typed = &Col<0>::instance(db, k);
                c.address = &db.at(k);
                m[k] = c;
            }
            for (size_t i = 0; i + 1 < n; i += 2)
            {
                auto k = "bulk" + std::to_string(i);
                PBT_CHECK(db.remove(k), what);
                m.erase(k);
            }
            removed = true;
            break;
        }
        }
        if (what.empty()) continue;
        g.note(what);
        verify(what);
    }
    if (dup) g.label("registered under an existing name");
    if (removed) g.label("collection removed");
    if (found) g.label("query over several documents");
    if (wrong) g.label("wrong collection type requested");
    if (edited) g.label("document edited");
    if (documents ? (found || edited) : (dup || removed || wrong)) g.nontrivial();
}

}

#ifdef PROP_DATABASE
PBT(registry, 36000, 360000, "a name is registered twice, a collection is removed, or a wrong type is requested")
{
    history(g, 30, false);
}
#endif

#ifdef PROP_COLLECTION
PBT(queries, 48000, 480000, "a query over several documents, or a document edited in place")
{
    history(g, 40, true);
}

PBT(bigCollection, 1200, 12000, "more than twenty documents")
{
    Database db;
    MCol m;
    m.kind = 1;
    m.name = "big";
    auto& c = Col<1>::instance(db, "big");
    m.typed = &c;
    m.address = &db.at("big");
    size_t n = static_cast<size_t>(g.range(2, 600));
    std::vector<Document*> refs;
    std::vector<std::string> ids;
    for (size_t i = 0; i < n; i++)
    {
        MDoc d {std::string(1, static_cast<char>('a' + i % 4)), static_cast<int>(i % 11)};
        auto id = c.insert(Doc<1>(d.name, d.value));
        m.docs[id] = d;
        refs.push_back(&c.doc(id));
        ids.push_back(id);
    }
    g.note(n, " documents");
    if (n > 20) g.nontrivial();
    for (size_t i = 0; i < n; i++)
        PBT_CHECK(refs[i] == &c.doc(ids[i]), "a document moved while others were inserted");
    checkErased(db.at("big"), m, db, "big");
    for (int i = 0; i < 3; i++) findAll(g, db.at("big"), m, "big");
    // a moved type-erased collection keeps its content
    Collection a = Col<1>(db, "loose");
    a.as<Col<1>>().insert(Doc<1>("x", 1, "fixed"));
    Collection b = std::move(a);
    PBT_CHECK(b.size() == 1 && b.name() == "loose" && b.doc("fixed").get<int>("value") == 1, "moved collection");
}
#endif
