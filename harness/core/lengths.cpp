// C09: containers of different lengths are refused.
#include <exception>
#include <span>
#include <string>
#include <vector>
#include "../pbt.hpp"
#include "forked.hpp"
#include "NeoFOAM/helpers/exceptions.hpp"

// a container whose length is what was generated, counting how often it is asked
struct Sized
{
    size_t n;
    size_t size() const { return n; }
};

template<typename A, typename B>
static int combine(const A& a, const B& b, bool& passed)
{
    passed = false;
    int line = __LINE__; NeoFOAM_ASSERT_EQUAL_LENGTH(a, b); passed = true;
    return line;
}
static int combineLine()
{
    bool p;
    return combine(Sized {0}, Sized {0}, p);
}

PBT(lengths, 30000, 600000, "the lengths differ")
{
    auto length = [&]() -> size_t {
        if (g.boolean()) return g.size(0, 12);
        return g.boolean() ? size_t(1) << g.below(64) : ~size_t(0) - g.below(3);
    };
    size_t a = length(), b = g.chance(1, 3) ? a : g.chance(1, 3) ? a + 1 - 2 * g.below(2) : g.chance(1, 4) ? a ^ (size_t(1) << g.below(64)) : length();
    bool containers = a < 20 && b < 20 && g.boolean();
    g.note("lengths ", a, " and ", b, containers ? ", containers" : "");
    if (a != b) g.nontrivial();
    g.label(a == b ? "equal" : "different");
    Capture o(1), e(2);
    bool passed = false;
    std::string text;
    int kind = 0;
    try
    {
        if (containers)
        {
            std::vector<double> v(a, 1.0);
            std::string s(b, 'x');
            combine(v, s, passed);
        }
        else combine(Sized {a}, Sized {b}, passed);
    }
    catch (const NeoFOAM::Error& x)
    {
        text = x.what();
        kind = dynamic_cast<const NeoFOAM::DimensionMismatch*>(&x) && dynamic_cast<const std::exception*>(&x) ? 1 : 2;
    }
    catch (const std::exception& x)
    {
        kind = 3;
        text = x.what();
    }
    std::string out = o.stop() + e.stop();
    PBT_CHECK(passed == (a == b), a == b ? "equal lengths were refused" : "different lengths were accepted", ": ", a, " and ", b);
    PBT_CHECK(kind == (a == b ? 0 : 1), "thrown: kind ", kind, " ", text);
    PBT_CHECK(out.empty(), "printed: ", out);
    if (a == b) return;
    for (auto& part : {std::string("lengths.cpp"), std::to_string(combineLine()), std::string("combine"), std::to_string(a), std::to_string(b)})
        PBT_CHECK(text.find(part) != std::string::npos, "'", part, "' is not in: ", text);
}

PBT(errors, 6000, 100000, "a message")
{
    std::string file = g.text(12), what = g.text(30);
    int line = int(g.range(0, 1000000));
    // what() ends at a zero
    std::erase(file, '\0'), std::erase(what, '\0');
    if (!what.empty()) g.nontrivial();
    NeoFOAM::Error x(file, line, what);
    NeoFOAM::Error copy(x);
    for (auto* p : {&x, &copy})
    {
        std::string t = static_cast<const std::exception&>(*p).what();
        for (auto& part : {file, std::to_string(line), what})
        {
            PBT_CHECK(t.find(part) != std::string::npos, "'", part, "' is not in: ", t);
        }
    }
}
