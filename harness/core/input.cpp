// C04: one input type serves dictionaries and token lists alike; reading never consumes the caller's input.
#include "model.hpp"
#include "NeoFOAM/core/input.hpp"

using namespace model;
using NeoFOAM::Dictionary;
using NeoFOAM::Input;
using NeoFOAM::TokenList;

namespace
{
struct Record
{
    std::vector<Val> vals;
    int source = 0;

    // the kinds the reader expects, in order
    static std::vector<Kind>& schema()
    {
        static std::vector<Kind> s;
        return s;
    }

    template<typename F>
    static Record collect(F&& at, int source)
    {
        Record r;
        r.source = source;
        for (size_t i = 0; i < schema().size(); i++)
        {
            std::any a;
            withType(schema()[i], [&]<typename T>() { a.emplace<T>(at.template operator()<T>(i)); });
            r.raw.push_back(a);
        }
        return r;
    }

    static Record read(const Dictionary& d)
    {
        return collect([&]<typename T>(size_t i) -> T { return d.get<T>("field" + std::to_string(i)); }, 1);
    }

    static Record read(const TokenList& t)
    {
        return collect([&]<typename T>(size_t i) -> T { return t.next<T>(); }, 2);
    }

    std::vector<std::any> raw;
};
}

PBT(read, 80000, 800000, "the record has at least two fields or the input lacks one")
{
    MList vals;
    size_t n = g.size(0, 8);
    Record::schema().clear();
    for (size_t i = 0; i < n; i++)
    {
        auto v = genVal(g, 1);
        if (v.kind == Empty) v.kind = Int;
        vals.push_back(v);
        Record::schema().push_back(v.kind);
    }
    Dictionary d;
    MDict dm;
    for (size_t i = 0; i < n; i++)
    {
        d.insert("field" + std::to_string(i), toAny(vals[i]));
        dm["field" + std::to_string(i)] = vals[i];
    }
    TokenList t(toAnys(vals));
    int broken = static_cast<int>(g.weighted({5, 1, 1}));
    size_t at = n ? g.index(n) : 0;
    if (n == 0) broken = 0;
    if (broken == 1) // a field is missing
    {
        d.remove("field" + std::to_string(at));
        dm.erase("field" + std::to_string(at));
        t = TokenList(toAnys(MList(vals.begin(), vals.begin() + static_cast<long>(at))));
    }
    if (broken == 2) // a field has another type
    {
        Val w;
        w.kind = vals[at].kind == VecD ? Int : VecD;
        d.insert("field" + std::to_string(at), toAny(w));
        dm["field" + std::to_string(at)] = w;
        MList vs = vals;
        vs[at] = w;
        t = TokenList(toAnys(vs));
    }
    MList tm;
    for (size_t i = 0; i < t.size(); i++)
        tm.push_back(broken == 2 && i == at ? dm["field" + std::to_string(at)] : vals[i]);
    g.note(n, " fields, defect ", broken, " at ", at);
    if (n >= 2 || broken) g.nontrivial();
    g.label(broken == 0 ? "complete" : broken == 1 ? "field missing" : "field of another type");

    Input inD = d, inT = t;
    PBT_CHECK(std::holds_alternative<Dictionary>(inD), "an input made from a dictionary");
    PBT_CHECK(std::holds_alternative<TokenList>(inT), "an input made from a token list");
    size_t rounds = static_cast<size_t>(g.range(1, 3));
    for (size_t r = 0; r < rounds; r++)
    {
        for (int which = 0; which < 2; which++)
        {
            const Input& in = which ? inT : inD;
            try
            {
                auto rec = NeoFOAM::read<Record>(in);
                PBT_CHECK(broken == 0, "reading an incomplete input succeeded");
                PBT_CHECK(rec.source == which + 1, "dispatched to the reader of the other input type");
                PBT_CHECK(rec.raw.size() == n, "fields read");
                for (size_t i = 0; i < n; i++) compare(rec.raw[i], vals[i], "field " + std::to_string(i));
            }
            catch (const std::out_of_range&)
            {
                PBT_CHECK(broken == 1, "std::out_of_range although every field is there (round ", r, ")");
            }
            catch (const std::bad_any_cast&)
            {
                PBT_CHECK(broken == 2, "std::bad_any_cast although every type matches (round ", r, ")");
            }
            compareDict(std::get<Dictionary>(inD), dm, "dictionary input after reading");
            compareTokens(std::get<TokenList>(inT), tm, "token input after reading");
        }
    }
    // the source objects are untouched as well, cursor included
    compareDict(d, dm, "dictionary after reading");
    compareTokens(t, tm, "token list after reading");
    for (size_t i = 0; i < tm.size(); i++)
        withType(
            tm[i].kind,
            [&]<typename T>()
            {
                const void* p = &t.template next<T>();
                PBT_CHECK(p == std::any_cast<T>(&t.tokens()[i]), "the caller's cursor moved");
            }
        );
}
