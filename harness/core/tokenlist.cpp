// C03: a TokenList is a sequence of values with a read cursor.
#include "model.hpp"

using namespace model;
using NeoFOAM::TokenList;

namespace
{

struct Slot
{
    std::unique_ptr<TokenList> t;
    MList m;
    size_t cursor = 0;
    bool cursorKnown = true; // removing an already consumed token leaves the cursor unspecified
};

template<typename L, typename F>
void typedGet(L& t, const MList& m, size_t idx, Kind want, F&& onMatch)
{
    const bool present = idx < m.size();
    const bool match = present && m[idx].kind == want;
    withType(
        want,
        [&]<typename T>()
        {
            if (match)
            {
                onMatch.template operator()<T>();
                return;
            }
            Capture cap(2);
            bool ok = false;
            try
            {
                (void)t.template get<T>(idx);
            }
            catch (const std::out_of_range&)
            {
                ok = !present;
            }
            catch (const std::bad_any_cast&)
            {
                ok = present;
            }
            auto err = cap.stop();
            PBT_CHECK(
                ok, "get<", kindName(want), ">(", idx, ") of ", m.size(), " tokens did not throw ",
                present ? "std::bad_any_cast" : "std::out_of_range"
            );
            PBT_CHECK(
                err.find(std::to_string(idx)) != std::string::npos, "the diagnostic does not name index ", idx, ": ", err
            );
            if (!present)
                PBT_CHECK(
                    err.find(std::to_string(m.size())) != std::string::npos, "the diagnostic does not name the size: ", err
                );
        }
    );
}

MList genList(pbt::Gen& g, size_t maxN)
{
    MList l;
    size_t n = g.size(0, maxN);
    for (size_t i = 0; i < n; i++) l.push_back(genVal(g, 2));
    return l;
}

Kind wantedKind(pbt::Gen& g, const MList& m, size_t idx)
{
    if (idx < m.size() && m[idx].kind != Empty && g.chance(3, 4)) return m[idx].kind;
    return static_cast<Kind>(g.index(KINDS - 1));
}

void history(pbt::Gen& g, size_t maxOps, size_t initial)
{
    std::vector<Slot> slots;
    {
        Slot s;
        s.m = genList(g, initial);
        g.note("initial tokens: ", s.m.size());
        if (g.boolean()) s.t = std::make_unique<TokenList>(toAnys(s.m));
        else
        {
            s.t = std::make_unique<TokenList>();
            for (auto& v : s.m) s.t->insert(toAny(v));
        }
        slots.push_back(std::move(s));
    }
    bool advanced = false, mixed = false, failedAccess = false, popped = false;
    size_t ops = g.size(1, maxOps);
    for (size_t op = 0; op < ops; op++)
    {
        size_t si = g.index(slots.size());
        Slot& s = slots[si];
        std::string what, name = "list" + std::to_string(si);
        switch (g.weighted({6, 6, 3, 3, 4, 3, 2, 1, 1}))
        {
        case 0:
        {
            auto v = genVal(g);
            what = name + ".insert(" + show(v) + ")";
            s.t->insert(toAny(v));
            s.m.push_back(deep(v));
            break;
        }
        case 1: // next
        {
            if (!s.cursorKnown) continue;
            Kind want = wantedKind(g, s.m, s.cursor);
            const bool present = s.cursor < s.m.size();
            const bool match = present && s.m[s.cursor].kind == want;
            const bool viaConst = g.boolean();
            what = name + ".next<" + kindName(want) + ">() at " + std::to_string(s.cursor);
            withType(
                want,
                [&]<typename T>()
                {
                    try
                    {
                        const void* p;
                        if (viaConst)
                        {
                            const TokenList& ct = *s.t;
                            p = &ct.template next<T>();
                        }
                        else p = &s.t->template next<T>();
                        PBT_CHECK(match, what, " returned a value although ", present ? "the type differs" : "the list is at its end");
                        const void* stored = std::any_cast<T>(&s.t->tokens().at(s.cursor));
                        PBT_CHECK(p == stored, what, " did not return the token under the cursor");
                        s.cursor++;
                        advanced = true;
                    }
                    catch (const std::out_of_range&)
                    {
                        PBT_CHECK(!present, what, " threw std::out_of_range");
                        failedAccess = true;
                    }
                    catch (const std::bad_any_cast&)
                    {
                        PBT_CHECK(present && !match, what, " threw std::bad_any_cast");
                        failedAccess = true;
                    }
                }
            );
            break;
        }
        case 2: // popFront
        {
            Kind want = wantedKind(g, s.m, 0);
            const bool present = !s.m.empty();
            const bool match = present && s.m[0].kind == want;
            what = name + ".popFront<" + kindName(want) + ">()";
            withType(
                want,
                [&]<typename T>()
                {
                    try
                    {
                        T r = s.t->template popFront<T>();
                        PBT_CHECK(match, what, " returned a value although ", present ? "the type differs" : "the list is empty");
                        Val v = s.m[0];
                        std::any a;
                        a.emplace<T>(r);
                        compare(a, v, what);
                        s.m.erase(s.m.begin());
                        popped = true;
                        if (s.cursor > 0)
                        {
                            s.cursorKnown = false;
                            mixed = true;
                        }
                    }
                    catch (const std::out_of_range&)
                    {
                        PBT_CHECK(!present, what, " threw std::out_of_range");
                        failedAccess = true;
                    }
                    catch (const std::bad_any_cast&)
                    {
                        PBT_CHECK(present && !match, what, " threw std::bad_any_cast");
                        failedAccess = true;
                    }
                }
            );
            break;
        }
        case 3: // remove
        {
            if (s.m.empty()) continue;
            size_t i = g.index(s.m.size());
            what = name + ".remove(" + std::to_string(i) + ")";
            s.t->remove(i);
            s.m.erase(s.m.begin() + static_cast<long>(i));
            if (i < s.cursor) s.cursorKnown = false;
            popped = true;
            break;
        }
        case 4: // get, const or not
        {
            size_t i = g.index(s.m.size() + 2);
            if (g.chance(1, 20)) i = std::numeric_limits<size_t>::max() - i;
            Kind want = wantedKind(g, s.m, i);
            what = name + ".get<" + kindName(want) + ">(" + std::to_string(i) + ")";
            if (i >= s.m.size() || s.m[i].kind != want) failedAccess = true;
            if (i >= s.m.size()) PBT_THROWS(std::out_of_range, (*s.t)[i], "operator[] past the end");
            if (g.boolean())
            {
                const TokenList& ct = *s.t;
                typedGet(
                    ct, s.m, i, want,
                    [&]<typename T>()
                    {
                        const void* p = &ct.template get<T>(i);
                        PBT_CHECK(p == std::any_cast<T>(&s.t->tokens()[i]), what, " is not the stored token");
                    }
                );
            }
            else
                typedGet(
                    *s.t, s.m, i, want,
                    [&]<typename T>()
                    {
                        auto& r = s.t->template get<T>(i);
                        PBT_CHECK(
                            static_cast<const void*>(&r) == std::any_cast<T>(&s.t->tokens()[i]), what, " is not the stored token"
                        );
                        PBT_CHECK(&(*s.t)[i] == &s.t->tokens()[i], "operator[](", i, ") is not the stored token");
                        if constexpr (std::is_same_v<T, int>)
                        {
                            r += 1; // writes through
                            s.m[i].i += 1;
                        }
                    }
                );
            break;
        }
        case 5: // copy: the tokens and the cursor
        {
            if (slots.size() >= 5) continue;
            Slot n;
            n.t = std::make_unique<TokenList>(*s.t);
            n.m = deep(s.m);
            n.cursor = s.cursor;
            n.cursorKnown = s.cursorKnown;
            what = name + " copied";
            slots.push_back(std::move(n));
            break;
        }
        case 6: // assignment, possibly to itself
        {
            size_t t = g.index(slots.size());
            what = "list" + std::to_string(t) + " = " + name;
            TokenList& src = *s.t;
            *slots[t].t = src;
            slots[t].m = deep(s.m);
            slots[t].cursor = s.cursor;
            slots[t].cursorKnown = s.cursorKnown;
            break;
        }
        case 7: // a list that starts reading in the middle
        {
            size_t c = g.index(s.m.size() + 1);
            what = name + " rebuilt with its cursor at " + std::to_string(c);
            s.t = std::make_unique<TokenList>(toAnys(s.m), c);
            s.cursor = c;
            s.cursorKnown = true;
            break;
        }
        default:
        {
            auto a = genVal(g), b = genVal(g);
            what = name + " rebuilt from a braced list";
            s.t = std::make_unique<TokenList>(std::initializer_list<std::any> {toAny(a), toAny(b)});
            s.m = {deep(a), deep(b)};
            s.cursor = 0;
            s.cursorKnown = true;
            break;
        }
        }
        g.note(what);
        for (size_t i = 0; i < slots.size(); i++)
            compareTokens(*slots[i].t, slots[i].m, what + ": list" + std::to_string(i));
    }
    // whatever happened, the rest of each list can be read in order
    for (auto& s : slots)
    {
        if (!s.cursorKnown) continue;
        while (s.cursor < s.m.size() && s.m[s.cursor].kind != Empty)
        {
            withType(
                s.m[s.cursor].kind,
                [&]<typename T>()
                {
                    const void* p = &s.t->template next<T>();
                    PBT_CHECK(
                        p == std::any_cast<T>(&s.t->tokens()[s.cursor]), "reading on: not the token at ", s.cursor
                    );
                }
            );
            s.cursor++;
        }
    }
    if (advanced) g.label("cursor advanced");
    if (popped) g.label("token removed");
    if (failedAccess) g.label("failing access");
    if (mixed) g.label("removal behind the cursor");
    if (advanced || popped || failedAccess) g.nontrivial();
}
}

PBT(histories, 120000, 1200000, "the cursor moved, a token was removed, or an access failed")
{
    history(g, 30, 6);
}

PBT(longLists, 6000, 60000, "as above, on lists of up to 200 tokens")
{
    history(g, 15, 200);
}
