// C27: fields in the database and their old-time levels.
#include <map>
#include "fv.hpp"
#include "../core/forked.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
using namespace num;
using NeoFOAM::Database;
using NeoFOAM::Document;
using fvcc::FieldCollection;
using fvcc::FieldDocument;
using fvcc::OldTimeCollection;

struct Indices
{
    std::int64_t time, iteration, subCycle;
};

enum Flaw
{
    NONE,
    NO_FIELD,
    NO_INDEX,
    NO_NAME,
    STRIPPED // complete when made, but something is taken away before it is handed over
};

// makes a field with the given contents, conditions and indices
template<typename T>
struct Create
{
    std::string name;
    const UnstructuredMesh& u;
    HostField<T> h;
    std::vector<Condition<T>> conds;
    Indices at;
    Flaw flaw = NONE;
    bool viaField = false;

    FieldDocument operator()(Database& db)
    {
        NeoFOAM::DomainField<T> d(u.exec(), field(u.exec(), h.in), u.boundaryMesh().offset());
        VolumeField<T> vf(u.exec(), name, u, d, boundaries<VolumeBoundary<T>, T>(u, conds), db, "", "");
        write(vf, h);
        if (viaField) return FieldDocument(vf, at.time, at.iteration, at.subCycle);
        Dictionary doc;
        if (flaw != NO_NAME) doc.insert("name", vf.name);
        doc.insert("timeIndex", at.time);
        if (flaw != NO_INDEX) doc.insert("iterationIndex", at.iteration);
        doc.insert("subCycleIndex", at.subCycle);
        if (flaw != NO_FIELD) doc.insert("field", vf);
        FieldDocument fd(Document(doc, fvcc::validateFieldDoc));
        if (flaw == STRIPPED) fd.doc().remove("subCycleIndex");
        return fd;
    }
};

template<typename T>
struct Entry
{
    std::string collection, key, name, docName;
    Indices at;
    HostField<T> h;
    std::vector<Condition<T>> conds;
    VolumeField<T>* field;
    FieldDocument* doc;
    int older = -1, next = -1, level = 0;
    std::string oldDoc {};
};

template<typename T>
static void history(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = g.chance(1, 8) ? anyMesh(g) : graphMesh(g, 4);
    auto u = build(exec, m);
    Database db;
    std::vector<Entry<T>> all;
    // collections in use; the second one's name begins with the first one's
    const std::vector<std::string> names {"fields", "fields_old", "other"};
    std::map<std::string, FieldCollection*> home;

    auto indices = [&]
    {
        auto one = [&] { return g.chance(1, 12) ? std::int64_t(1) << g.below(62) : g.range(-3, 40); };
        std::int64_t a = one(), b = one(), c = one();
        return Indices {a, b, c};
    };
    auto collection = [&](const std::string& n) -> FieldCollection&
    {
        auto& c = FieldCollection::instance(db, n);
        if (home.count(n)) PBT_CHECK(home[n] == &c, "the collection ", n, " has moved");
        home[n] = &c;
        return c;
    };
    auto check = [&](const Entry<T>& e, const std::string& what)
    {
        PBT_CHECK(e.field->key == e.key && e.field->fieldCollectionName == e.collection, what, ": the field says it is ", e.field->key, " in ", e.field->fieldCollectionName, ", but it was put as ", e.key, " in ", e.collection);
        PBT_CHECK(e.field->registered() && e.field->hasDatabase() && &e.field->db() == &db, what, ": not registered");
        PBT_CHECK(e.field->name == e.name, what, ": named ", e.field->name, ", expected ", e.name);
        PBT_CHECK(&e.field->mesh() == &u && e.field->exec() == exec && e.field->boundaryConditions().size() == e.conds.size(), what, ": mesh, executor or conditions");
        auto& c = collection(e.collection);
        PBT_CHECK(c.contains(e.key), what, ": not in its collection");
        PBT_CHECK(&c.fieldDoc(e.key) == e.doc && &std::as_const(c).fieldDoc(e.key) == e.doc, what, ": its document has moved");
        PBT_CHECK(&e.doc->template field<VolumeField<T>>() == e.field && &std::as_const(*e.doc).template field<VolumeField<T>>() == e.field, what, ": the field has moved");
        const auto& d = std::as_const(*e.doc);
        PBT_CHECK(d.id() == e.key && d.name() == e.docName && NeoFOAM::name(c.doc(e.key)) == e.docName, what, ": document named ", d.name(), " with id ", d.id());
        PBT_CHECK(d.timeIndex() == e.at.time && d.iterationIndex() == e.at.iteration && d.subCycleIndex() == e.at.subCycle, what, ": indices ", d.timeIndex(), " ", d.iterationIndex(), " ", d.subCycleIndex(), ", expected ", e.at.time, " ", e.at.iteration, " ", e.at.subCycle);
        unchanged(*e.field, e.h, what);
    };
    auto checkAll = [&](const std::string& when)
    {
        std::map<std::string, std::vector<std::string>> keys;
        std::map<std::string, size_t> olds;
        for (size_t i = 0; i < all.size(); i++)
        {
            check(all[i], when + ": field " + std::to_string(i) + " (" + all[i].name + ")");
            keys[all[i].collection].push_back(all[i].key);
            if (all[i].older >= 0) olds[all[i].collection]++;
        }
        for (auto& [n, c] : home)
        {
            auto& k = keys[n];
            std::sort(k.begin(), k.end());
            PBT_CHECK(c->size() == k.size() && c->sortedKeys() == k, when, ": collection ", n, " has ", c->size(), " documents, expected ", k.size());
            PBT_CHECK(c->name() == n && c->type() == "FieldDocument" && &c->db() == &db, when, ": name, type or database of the collection");
            if (olds[n])
            {
                PBT_CHECK(db.contains(n + "_oldTime"), when, ": no old times of ", n);
                auto& o = OldTimeCollection::instance(*c);
                PBT_CHECK(o.size() == olds[n], when, ": ", o.size(), " old times in ", n, ", expected ", olds[n]);
            }
            else PBT_CHECK(!db.contains(n + "_oldTime") || OldTimeCollection::instance(*c).size() == 0, when, ": old times nobody asked for");
        }
        for (size_t i = 0; i < all.size(); i++)
        {
            auto& e = all[i];
            if (e.older < 0) continue;
            auto& old = all[size_t(e.older)];
            auto& o = OldTimeCollection::instance(*home[e.collection]);
            PBT_CHECK(o.findNextTime(e.key) == e.oldDoc && o.findPreviousTime(old.key) == e.oldDoc, when, ": the link from ", e.name, " to its old field is not found");
            const auto& d = std::as_const(o).oldTimeDoc(e.oldDoc);
            size_t top = i;
            while (all[top].next >= 0) top = size_t(all[top].next);
            PBT_CHECK(d.nextTime() == e.key && d.previousTime() == old.key && d.currentTime() == all[top].key, when, ": link from ", d.nextTime(), " to ", d.previousTime(), ", current ", d.currentTime(), ", expected ", e.key, ", ", old.key, ", ", all[top].key);
            PBT_CHECK(d.level() == old.level, when, ": level ", d.level(), ", expected ", old.level);
        }
    };
    auto add = [&](VolumeField<T>& f, const std::string& coll, Entry<T> e) -> size_t
    {
        e.collection = coll;
        e.key = f.key;
        e.field = &f;
        e.doc = &collection(coll).fieldDoc(f.key);
        for (const auto& x : all) PBT_CHECK(x.key != e.key, "the key ", e.key, " is given twice");
        all.push_back(e);
        return all.size() - 1;
    };

    size_t steps = g.size(1, 24);
    size_t olds = 0, copies = 0;
    for (size_t s = 0; s < steps; s++)
    {
        size_t op = all.empty() ? 0 : g.weighted({3, 3, 4, 7, 3, 2, 2, 2, 2, 2, 1});
        std::string what = "step " + std::to_string(s);
        if (op == 0) // a new field
        {
            auto coll = g.pick(names);
            Entry<T> e;
            e.name = e.docName = g.pick(std::vector<std::string> {"T", "U", "T_0", ""});
            e.at = indices();
            e.h = content<T>(g, m.nCells(), m.nBnd());
            e.conds = conditions<T>(g, m.nPatches(), VOLUME_TYPES);
            g.note("register ", e.name, " in ", coll);
            auto& f = collection(coll).template registerField<VolumeField<T>>(Create<T> {e.name, u, e.h, e.conds, e.at, NONE, g.boolean()});
            add(f, coll, e);
        }
        else if (op == 1) // a field like another one
        {
            size_t src = g.index(all.size());
            auto coll = g.pick(names);
            Entry<T> e = all[src];
            e.older = e.next = -1;
            e.level = 0;
            e.oldDoc = "";
            e.name = e.docName = g.pick(std::vector<std::string> {"copy", "T", "U_0"});
            fvcc::CreateFromExistingField<VolumeField<T>> make {.name = e.name, .field = *all[src].field};
            auto given = indices();
            bool a = g.boolean(), b = g.boolean(), c = g.boolean();
            if (a) make.timeIndex = e.at.time = given.time;
            if (b) make.iterationIndex = e.at.iteration = given.iteration;
            if (c) make.subCycleIndex = e.at.subCycle = given.subCycle;
            g.note("register ", e.name, " in ", coll, " like field ", src, a ? " timeIndex" : "", b ? " iterationIndex" : "", c ? " subCycleIndex" : "", " given");
            auto& f = collection(coll).template registerField<VolumeField<T>>(make);
            PBT_CHECK(&f != all[src].field, "the copy is the original");
            add(f, coll, e);
            copies++;
        }
        else if (op == 2) // its contents change
        {
            auto& e = all[g.index(all.size())];
            e.h = content<T>(g, m.nCells(), m.nBnd());
            write(*e.field, e.h);
            if (g.boolean())
            {
                e.field->correctBoundaryConditions();
                correct(e.h, m, e.conds);
                // documented as unused for a given value
                for (size_t p = 0; p < e.conds.size(); p++)
                    if (e.conds[p].type == "fixedValue")
                        for (size_t b = m.offset[p]; b < m.offset[p + 1]; b++) e.h.refGrad[b] = host(e.field->boundaryField().refGrad())[b];
                // the same up to rounding; from here on exactly what is there
                near(host(e.field->boundaryField().value()), e.h.value, 2 * (magnitude(e.h.value) + magnitude(e.h.in)), what + ": after correcting " + e.name + ": boundary value");
                e.h.value = host(e.field->boundaryField().value());
                unchanged(*e.field, e.h, what + ": after correcting " + e.name);
            }
        }
        else if (op == 3) // the old field
        {
            size_t i = g.index(all.size());
            // chains grow at their end
            while (all[i].older >= 0 && g.boolean()) i = size_t(all[i].older);
            if (all[i].at.time < -4000) continue;
            VolumeField<T>* old;
            size_t how = g.weighted({4, 2, 2, 1});
            g.note("old field of ", i);
            if (how == 1)
            {
                // a copy of a registered field is the same field to the database
                VolumeField<T> copy(*all[i].field);
                copy.name = "copied";
                old = &fvcc::oldTime(copy);
            }
            else if (how == 2) old = &OldTimeCollection::instance(*home[all[i].collection]).template getOrInsert<VolumeField<T>>(all[i].key);
            else if (how == 3 && all[i].older >= 0)
            {
                old = const_cast<VolumeField<T>*>(&fvcc::oldTime(std::as_const(*all[i].field)));
                g.label("constant");
            }
            else old = &fvcc::oldTime(*all[i].field);
            if (all[i].older >= 0)
            {
                PBT_CHECK(old == all[size_t(all[i].older)].field, "asked again, the old field of ", all[i].name, " is another one");
                g.label("asked again");
            }
            else
            {
                Entry<T> e = all[i];
                e.name = e.docName = all[i].name + "_0";
                e.at.time--;
                e.older = -1;
                e.next = int(i);
                e.level = all[i].level + 1;
                e.oldDoc = "";
                size_t n = add(*old, all[i].collection, e);
                all[i].older = int(n);
                all[i].oldDoc = OldTimeCollection::instance(*home[all[i].collection]).findNextTime(all[i].key);
                PBT_CHECK(all[i].oldDoc != "", "no link to the old field of ", all[i].name);
                olds++;
                if (e.level > 1) g.label("level " + std::to_string(e.level));
            }
        }
        else if (op == 4) // the document is edited
        {
            auto& e = all[g.index(all.size())];
            auto& d = *e.doc;
            switch (g.index(4))
            {
            case 0: d.timeIndex() = e.at.time = g.range(-2, 50); break;
            case 1: d.iterationIndex() = e.at.iteration = g.range(-2, 50); break;
            case 2: d.subCycleIndex() = e.at.subCycle = g.range(-2, 50); break;
            default: d.name() = e.docName = g.text(4); break;
            }
        }
        else if (op == 5) // time moves on: the chain is shifted, oldest first
        {
            size_t i = g.index(all.size());
            std::vector<size_t> chain {i};
            while (all[chain.back()].older >= 0) chain.push_back(size_t(all[chain.back()].older));
            for (size_t k = chain.size(); k-- > 1;)
            {
                auto &to = all[chain[k]], &from = all[chain[k - 1]];
                fvcc::oldTime(*from.field).internalField() = from.field->internalField();
                to.h.in = from.h.in;
            }
            if (chain.size() > 2) g.label("shifted");
        }
        else if (op == 6) // documents that are not complete are refused
        {
            auto coll = g.pick(names);
            auto flaw = g.pick(std::vector<Flaw> {NO_FIELD, NO_INDEX, NO_NAME, STRIPPED});
            Create<T> make {"bad", u, content<T>(g, m.nCells(), m.nBnd()), {}, {1, 2, 3}, flaw};
            g.note("register an incomplete document, flaw ", int(flaw));
            PBT_THROWS(std::runtime_error, collection(coll).template registerField<VolumeField<T>>(make), "an incomplete document");
            g.label("incomplete");
        }
        else if (op == 7) // the same document again
        {
            auto& e = all[g.index(all.size())];
            FieldDocument again(*e.doc);
            again.timeIndex() += 7;
            PBT_CHECK(collection(e.collection).insert(again) == "", "a document was put into its collection twice");
            // in another collection it is welcome, but then it is another document there
        }
        else if (op == 8) // fields the database does not know
        {
            VolumeField<T> stranger(exec, "stranger", u, boundaries<VolumeBoundary<T>, T>(u, {}));
            PBT_CHECK(!stranger.registered() && !stranger.hasDatabase(), "an unregistered field says it is registered");
            PBT_THROWS(std::runtime_error, FieldCollection::instance(stranger), "the collection of an unregistered field");
            PBT_THROWS(std::runtime_error, FieldCollection::instance(std::as_const(stranger)), "the collection of an unregistered field");
            PBT_THROWS(std::runtime_error, fvcc::oldTime(stranger), "the old field of an unregistered field");
            PBT_THROWS(std::runtime_error, fvcc::oldTime(std::as_const(stranger)), "the old field of an unregistered field");
            PBT_THROWS(std::runtime_error, stranger.db(), "the database of an unregistered field");
            PBT_THROWS(std::runtime_error, std::as_const(stranger).db(), "the database of an unregistered field");
            // a field that is like an unregistered one
            auto h = content<T>(g, m.nCells(), m.nBnd());
            write(stranger, h);
            auto coll = g.pick(names);
            Entry<T> e;
            e.name = e.docName = "fromStranger";
            e.at = indices();
            e.h = h;
            auto& f = collection(coll).template registerField<VolumeField<T>>(fvcc::CreateFromExistingField<VolumeField<T>> {
                .name = e.name, .field = stranger, .timeIndex = e.at.time, .iterationIndex = e.at.iteration, .subCycleIndex = e.at.subCycle});
            add(f, coll, e);
            PBT_CHECK(!stranger.registered() && stranger.key == "", "making a field like it registered the field");
            g.label("unregistered");
        }
        else if (op == 9) // looking things up
        {
            auto& e = all[g.index(all.size())];
            auto& c = FieldCollection::instance(*e.field);
            PBT_CHECK(&c == home[e.collection] && &FieldCollection::instance(std::as_const(*e.field)) == &c && &FieldCollection::instance(std::as_const(db), e.collection) == &c,
                "the collection of ", e.name, " is another one");
            auto found = c.find([&](const Document& d) { return NeoFOAM::name(d) == e.docName; });
            std::vector<std::string> want;
            for (const auto& x : all)
                if (x.collection == e.collection && x.docName == e.docName) want.push_back(x.key);
            std::sort(found.begin(), found.end());
            std::sort(want.begin(), want.end());
            PBT_CHECK(found == want, "found ", found.size(), " documents named ", e.docName, ", expected ", want.size());
            for (const auto& n : names)
                if (n != e.collection && home.count(n))
                {
                    PBT_CHECK(!home[n]->contains(e.key), "collection ", n, " contains a field of ", e.collection);
                    PBT_THROWS(std::out_of_range, home[n]->fieldDoc(e.key), "the document of another collection");
                }
            using Other = std::conditional_t<std::is_same_v<T, Vector>, scalar, Vector>;
            PBT_THROWS(std::bad_any_cast, e.doc->template field<VolumeField<Other>>(), "a field of another type");
        }
        else // a constant field whose old field nobody asked for
        {
            size_t i = g.index(all.size());
            if (all[i].older >= 0 || !g.chance(1, 4)) continue;
            auto r = forked([&] { (void)fvcc::oldTime(std::as_const(*all[i].field)); });
            PBT_CHECK(!r.exited || (r.status != RETURNED && r.status != 0), "an old field that does not exist was returned");
            g.label("constant, absent");
        }
        if (s % 4 == 3) checkAll("after " + what);
    }
    checkAll("at the end");
    if (olds > 0 && all.size() > 2) g.nontrivial();
    if (copies) g.label("copied");
}

PBT(scalar_fields, 9000, 250000, "At least one old field was made and more than two fields are registered.") { history<scalar>(g); }
PBT(vector_fields, 4500, 120000, "At least one old field was made and more than two fields are registered.") { history<Vector>(g); }

// documents of old times by themselves
PBT(old_time_documents, 3000, 60000, "More than three documents are put in.")
{
    Database db;
    std::string n = g.text(5);
    auto& c = OldTimeCollection::instance(db, n, "fields");
    PBT_CHECK(c.name() == n && c.type() == "OldTimeDocument" && c.size() == 0 && db.contains(n), "name, type or size of a new collection");
    struct Doc
    {
        std::string id, next, previous, current;
        int level;
    };
    std::vector<Doc> all;
    size_t k = g.size(0, 10);
    for (size_t i = 0; i < k; i++)
    {
        Doc d {"", "n" + std::to_string(i) + g.text(2), "p" + std::to_string(i) + g.text(2), g.text(3), int(g.range(-3, 9))};
        g.note(d.next, " -> ", d.previous, " (current ", d.current, ", level ", d.level, ")");
        fvcc::OldTimeDocument doc(d.next, d.previous, d.current, d.level);
        d.id = doc.id();
        PBT_CHECK(c.insert(doc), "a new document was refused");
        if (g.boolean()) PBT_CHECK(!c.insert(doc), "a document was put in twice");
        // what is put in is a copy
        doc.level() = 77;
        doc.nextTime() = "elsewhere";
        all.push_back(d);
        if (g.boolean())
        {
            auto& e = all[g.index(all.size())];
            auto& held = c.oldTimeDoc(e.id);
            switch (g.index(4))
            {
            case 0: held.nextTime() = e.next = e.next + "'"; break;
            case 1: held.previousTime() = e.previous = e.previous + "'"; break;
            case 2: held.currentTime() = e.current = g.text(3); break;
            default: held.level() = e.level = int(g.range(-3, 9)); break;
            }
        }
    }
    if (k > 3) g.nontrivial();
    PBT_CHECK(c.size() == k && &OldTimeCollection::instance(db, n, "fields") == &c && &OldTimeCollection::instance(std::as_const(db), n) == &c, "size or identity");
    for (const auto& d : all)
    {
        PBT_CHECK(c.contains(d.id) && c.findNextTime(d.next) == d.id && c.findPreviousTime(d.previous) == d.id, "document ", d.id, " is not found by its links");
        const auto& h = std::as_const(c).oldTimeDoc(d.id);
        PBT_CHECK(h.nextTime() == d.next && h.previousTime() == d.previous && h.currentTime() == d.current && h.level() == d.level && h.id() == d.id, "content of document ", d.id);
        PBT_CHECK(c.findNextTime(d.previous) == "" && c.findPreviousTime(d.next) == "", "the links of ", d.id, " are mixed up");
    }
    PBT_CHECK(c.findNextTime("") == "" && !c.contains("x") && !c.contains(""), "a document nobody put in");
    PBT_THROWS(std::out_of_range, c.oldTimeDoc("x"), "a document nobody put in");
}
