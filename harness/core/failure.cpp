// C09: how failures are reported.  Built twice: as released and with NF_DEBUG.
#include <cstdint>
#include "../pbt.hpp"
#include "forked.hpp"
#include "NeoFOAM/core/error.hpp"

using NeoFOAM::NeoFOAMException;

#ifdef NF_DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif

static std::string have(const std::string& text, const std::vector<std::string>& parts)
{
    for (auto& p : parts)
        if (text.find(p) == std::string::npos) return p.empty() ? "(empty)" : p;
    return "";
}

static std::string lineText(int l) { return std::to_string(l); }

// one use of a macro: how often were condition and message evaluated, where is it, what did it do
struct Use
{
    int line;
    std::function<void()> run;
};
static int conds, msgs;
static bool cond(bool c)
{
    conds++;
    return c;
}
static std::string msg(const std::string& m)
{
    msgs++;
    return m;
}

enum Effect
{
    Fatal,
    Throws,
    Silent
};

static void judge(const Use& u, bool holds, Effect onFailure, const std::vector<std::string>& parts, const std::string& what)
{
    conds = msgs = 0;
    if (onFailure == Silent || holds)
    {
        Capture o(1), e(2);
        std::string thrown;
        try
        {
            u.run();
        }
        catch (const std::exception& ex)
        {
            thrown = ex.what();
        }
        auto err = e.stop(), out = o.stop();
        PBT_CHECK(thrown.empty(), what, " threw ", thrown);
        PBT_CHECK(err.empty() && out.empty(), what, " printed ", err, out);
        PBT_CHECK(msgs == 0, what, " evaluated its message");
        if (onFailure == Silent) PBT_CHECK(conds == 0, what, " evaluated its condition");
        else PBT_CHECK(conds == 1, what, " evaluated its condition ", conds, " times");
        return;
    }
    if (onFailure == Throws)
    {
        Capture o(1), e(2);
        std::string text;
        bool right = false;
        try
        {
            u.run();
        }
        catch (const NeoFOAMException& ex)
        {
            right = true;
            const std::exception& base = ex;
            text = ex.what();
            PBT_CHECK(text == base.what(), what, ": what() depends on the static type");
            NeoFOAMException copy(ex);
            PBT_CHECK(text == copy.what(), what, ": what() of a copy");
        }
        auto err = e.stop(), out = o.stop();
        PBT_CHECK(right, what, " did not throw");
        auto miss = have(text, parts);
        PBT_CHECK(miss.empty(), what, ": what() lacks [", miss, "]: ", text);
        miss = have(text, {"failure.cpp", lineText(u.line)});
        PBT_CHECK(miss.empty(), what, ": what() lacks the place [", miss, "]: ", text);
        PBT_CHECK(err.empty() && out.empty(), what, " printed ", err, out);
        return;
    }
    auto r = forked(u.run);
    PBT_CHECK(!(r.exited && r.status == RETURNED), what, " returned");
    PBT_CHECK(!(r.exited && r.status == THREW), what, " threw");
    PBT_CHECK(!r.exited || r.status != 0, what, " ended with success");
    PBT_CHECK(r.exited ? r.status == 1 : r.status == SIGABRT, what, " ended with ", r.exited ? "status " : "signal ", r.status, ": ", r.err);
    auto miss = have(r.err, parts);
    PBT_CHECK(miss.empty(), what, ": the message lacks [", miss, "]: ", r.err);
    miss = have(r.err, {"failure.cpp", lineText(u.line)});
    PBT_CHECK(miss.empty(), what, ": the message lacks the place [", miss, "]: ", r.err);
    PBT_CHECK(r.out.empty(), what, " wrote to standard output: ", r.out);
}

static std::string genMsg(pbt::Gen& g)
{
    auto s = g.text(30);
    for (auto& c : s)
        if (c == 0) c = '0';
    return s;
}

template<typename T>
std::string shown(const T& t)
{
    std::ostringstream os;
    os << t;
    return os.str();
}

PBT(assertions, 36000, 600000, "the condition is false")
{
    bool c = g.boolean();
    auto m = genMsg(g);
    int x = int(g.range(-100, 100000));
    if (!c) g.nontrivial();
    switch (g.index(8))
    {
    case 0:
        g.note("NF_ASSERT(", c, ", ", m, ")");
        judge({__LINE__, [&] { NF_ASSERT(cond(c), msg(m) << x); }}, c, Fatal, {m + shown(x), "cond(c)"}, "NF_ASSERT");
        break;
    case 1:
        g.note("NF_ASSERT_THROW(", c, ", ", m, ")");
        judge({__LINE__, [&] { NF_ASSERT_THROW(cond(c), msg(m) << x); }}, c, Throws, {m + shown(x), "cond(c)"}, "NF_ASSERT_THROW");
        break;
    case 2:
        g.note("NF_ASSERT(", c, " && true, ", m, ")");
        judge({__LINE__, [&] { NF_ASSERT(cond(c) && true, msg(m)); }}, c, Fatal, {m}, "NF_ASSERT(a && b)");
        break;
    case 3:
        g.note("NF_ASSERT(", c, " || false, ", m, ")");
        judge({__LINE__, [&] { NF_ASSERT(cond(c) || false, msg(m)); }}, c, Fatal, {m}, "NF_ASSERT(a || b)");
        break;
    case 4:
        g.note("NF_DEBUG_ASSERT(", c, ", ", m, ")");
        judge({__LINE__, [&] { NF_DEBUG_ASSERT(cond(c), msg(m) << x); }}, c, debug ? Fatal : Silent, {m + shown(x)}, "NF_DEBUG_ASSERT");
        break;
    case 5:
        g.note("NF_DEBUG_ASSERT_THROW(", c, ", ", m, ")");
        judge({__LINE__, [&] { NF_DEBUG_ASSERT_THROW(cond(c), msg(m) << x); }}, c, debug ? Throws : Silent, {m + shown(x)}, "NF_DEBUG_ASSERT_THROW");
        break;
    case 6: // as the only statement of an if with an else
    {
        g.note("if / else, ", c);
        bool other = false;
        judge(
            {__LINE__, [&] { if (c) NF_ASSERT(cond(c), msg(m)); else other = true; }}, true, c ? Fatal : Silent, {m}, "NF_ASSERT in an if"
        );
        PBT_CHECK(other == !c, "the else branch of an if around an assertion");
        break;
    }
    default:
        g.note("NF_THROW / NF_ERROR_EXIT ", m);
        g.nontrivial();
        conds = 1;
        judge({__LINE__, [&] { NF_ERROR_EXIT(msg(m) << x << "tail"); }}, false, Fatal, {m + shown(x) + "tail"}, "NF_ERROR_EXIT");
        judge({__LINE__, [&] { NF_THROW(msg(m) + shown(x)); }}, false, Throws, {m + shown(x)}, "NF_THROW");
        judge({__LINE__, [&] { NF_THROW(msg(m) << x << "tail"); }}, false, Throws, {m + shown(x) + "tail"}, "NF_THROW");
    }
}

// equality of expressions written with every operator that binds weaker than ==
template<typename A, typename B>
void equality(pbt::Gen& g, const char* name, A a, B b)
{
    auto va = a();
    auto vb = b();
    bool eq = va == vb;
    g.note(name, ": ", va, " against ", vb);
    if (!eq) g.nontrivial();
    std::vector<std::string> parts = {"Expected " + shown(vb), "got " + shown(va)};
    int k = int(g.index(4));
    g.label(eq ? "equal" : "unequal");
    if (k == 0) judge({__LINE__, [&] { cond(1); NF_ASSERT_EQUAL(a(), b()); }}, eq, Fatal, parts, std::string("NF_ASSERT_EQUAL ") + name);
    if (k == 1) judge({__LINE__, [&] { cond(1); NF_ASSERT_EQUAL_THROW(a(), b()); }}, eq, Throws, parts, std::string("NF_ASSERT_EQUAL_THROW ") + name);
    if (k == 2)
        judge({__LINE__, [&] { if (debug) cond(1); NF_DEBUG_ASSERT_EQUAL(a(), b()); }}, eq, debug ? Fatal : Silent, parts, std::string("NF_DEBUG_ASSERT_EQUAL ") + name);
    if (k == 3)
        judge({__LINE__, [&] { if (debug) cond(1); NF_DEBUG_ASSERT_EQUAL_THROW(a(), b()); }}, eq, debug ? Throws : Silent, parts, std::string("NF_DEBUG_ASSERT_EQUAL_THROW ") + name);
}

#define EXPR(TEXT, E)                                                                              \
    {                                                                                              \
        auto va = (E);                                                                             \
        bool eq = va == z;                                                                         \
        if (!eq) g.nontrivial();                                                                   \
        g.note(TEXT, " with ", x, " ", y, " ", c, " against ", z);                                 \
        std::vector<std::string> pa = {"Expected " + shown(z), "got " + shown(va)};                \
        std::vector<std::string> pb = {"Expected " + shown(va), "got " + shown(z)};                \
        auto left = [&] { cond(1); NF_ASSERT_EQUAL(E, z); };                                       \
        auto right = [&] { cond(1); NF_ASSERT_EQUAL(z, E); };                                      \
        auto leftT = [&] { cond(1); NF_ASSERT_EQUAL_THROW(E, z); };                                \
        auto rightT = [&] { cond(1); NF_ASSERT_EQUAL_THROW(z, E); };                               \
        if (side == 0) judge({__LINE__, left}, eq, Fatal, pa, "NF_ASSERT_EQUAL(" TEXT ", z)");     \
        if (side == 1) judge({__LINE__, right}, eq, Fatal, pb, "NF_ASSERT_EQUAL(z, " TEXT ")");    \
        if (side == 2) judge({__LINE__, leftT}, eq, Throws, pa, "NF_ASSERT_EQUAL_THROW(" TEXT ", z)"); \
        if (side == 3) judge({__LINE__, rightT}, eq, Throws, pb, "NF_ASSERT_EQUAL_THROW(z, " TEXT ")"); \
        break;                                                                                     \
    }

PBT(equalityOfExpressions, 18000, 300000, "the two sides differ")
{
    int x = int(g.range(0, 15)), y = int(g.range(0, 15)), z = int(g.range(0, 15)), side = int(g.index(4));
    bool c = g.boolean();
    switch (g.index(9))
    {
    case 0:
        EXPR("x + y", x + y)
    case 1:
        EXPR("x & y", x & y)
    case 2:
        EXPR("x | y", x | y)
    case 3:
        EXPR("x ^ y", x ^ y)
    case 4:
        EXPR("c ? x : y", c ? x : y)
    case 5:
        EXPR("x << 1", x << 1)
    case 6:
        EXPR("x < y", x < y)
    case 7:
        EXPR("x == y", x == y)
    default:
        EXPR("c || x", c || x)
    }
}

PBT(equalityOfValues, 24000, 400000, "the two sides differ")
{
    bool same = g.boolean();
    switch (g.index(4))
    {
    case 0:
    {
        auto x = g.range(-1000, 1000), y = same ? x : g.range(-1000, 1000);
        equality(g, "integers", [=] { return x; }, [=] { return y; });
        break;
    }
    case 1:
    {
        double x = g.anyDouble(), y = same ? x : g.anyDouble();
        equality(g, "doubles", [=] { return x; }, [=] { return y; });
        break;
    }
#ifdef EQUAL_STRINGS
    case 2:
    {
        auto x = genMsg(g), y = same ? x : genMsg(g);
        equality(g, "strings", [=] { return x; }, [=] { return y; });
        break;
    }
#endif
    default:
    {
        size_t x = g.below(10), y = same ? x : g.below(10);
        equality(g, "sizes", [=] { return x; }, [=] { return y; });
    }
    }
}

PBT(messages, 24000, 400000, "always")
{
    auto m = genMsg(g);
    int x = int(g.range(-1000, 1000));
    g.note(m, " ", x);
    g.nontrivial();
    NeoFOAMException ex(m);
    PBT_CHECK(std::string(ex.what()) == m, "what()");
    {
        Capture o(1), e(2);
        NF_INFO(m << " " << x);
        auto err = e.stop(), out = o.stop();
        PBT_CHECK(out == m + " " + shown(x) + "\n" && err.empty(), "NF_INFO printed ", out);
    }
    {
        Capture o(1), e(2);
        msgs = 0;
        NF_DINFO(msg(m) << x);
        auto err = e.stop(), out = o.stop();
        if (debug) PBT_CHECK(out.find(m + shown(x)) != std::string::npos && out.find("failure.cpp") != std::string::npos && msgs == 1, "NF_DINFO printed ", out);
        else PBT_CHECK(out.empty() && err.empty() && msgs == 0, "NF_DINFO printed ", out);
    }
}
