// C11: View.  Built twice: as released and with NF_DEBUG (where Kokkos::abort is a stand-in that throws).
#include <vector>
#include <span>
#include <stdexcept>
#include <numeric>
#include "../pbt.hpp"
struct Aborted
{
};
namespace Kokkos
{
inline void abort(const char*) { throw Aborted {}; }
}
#include "NeoFOAM/core/view.hpp"

using NeoFOAM::View;

#ifdef NF_DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif

struct Odd
{
    char a;
    double b;
    short c;
    bool operator==(const Odd&) const = default;
};
static int make(int*, long v) { return int(v); }
static double make(double*, long v) { return double(v) / 4; }
static Odd make(Odd*, long v) { return Odd {char(v), double(v), short(v)}; }

template<typename T>
static void through(pbt::Gen& g)
{
    // the view covers [off, off + n) of a buffer, so that a stray access stays in the buffer
    size_t off = g.size(0, 6), n = g.size(0, 40), tail = 1 + g.size(0, 6);
    std::vector<T> buf(off + n + tail);
    for (size_t i = 0; i < buf.size(); i++) buf[i] = make((T*)nullptr, long(i) + 1);
    auto model = buf;
    T* first = buf.data() + off;
    g.note("view of ", n, " elements");
    View<T> v = [&]() -> View<T>
    {
        switch (g.index(4))
        {
        case 0: return View<T>(first, n);
        case 1: return View<T>(first, first + n);
        case 2: return View<T>(std::span<T>(first, n));
        default: return std::span<T>(first, n);
        }
    }();
    PBT_CHECK(v.size() == n && v.data() == first && v.empty() == (n == 0), "extent of the view");
    PBT_CHECK(v.abort && v.failureIndex == 0, "initial state");
    bool ab = g.boolean();
    v.abort = ab;
    size_t firstBad = 0;
    size_t ops = g.size(1, 30);
    for (size_t op = 0; op < ops; op++)
    {
        switch (g.weighted({4, 4, 2, 2, 1}))
        {
        case 0: // write in range
        {
            if (n == 0) continue;
            size_t i = g.chance(1, 4) ? (g.boolean() ? 0 : n - 1) : g.index(n);
            T x = make((T*)nullptr, g.range(-100, 100));
            g.note("v[", i, "] = x");
            v[i] = x;
            model[off + i] = x;
            break;
        }
        case 1: // read in range
        {
            if (n == 0) continue;
            size_t i = g.chance(1, 4) ? (g.boolean() ? 0 : n - 1) : g.index(n);
            g.note("v[", i, "]");
            PBT_CHECK(&v[i] == first + i, "v[", i, "] is another element");
            PBT_CHECK(v[i] == model[off + i], "v[", i, "] has another value");
            break;
        }
        case 2: // out of range
        {
            if (!debug) continue; // a precondition as released
            size_t i = n + g.index(tail);
            bool huge = g.chance(1, 6);
            if (huge) i = std::numeric_limits<size_t>::max() - g.below(3);
            if (huge && !v.abort) continue; // the element does not exist
            g.nontrivial();
            g.note("v[", i, "] out of range");
            if (v.abort)
            {
                bool aborted = false;
                try
                {
                    (void)&v[i];
                }
                catch (const Aborted&)
                {
                    aborted = true;
                }
                PBT_CHECK(aborted, "v[", i, "] of a view of ", n, " did not abort");
                PBT_CHECK(v.failureIndex == firstBad, "an abort changed the recorded index");
            }
            else
            {
                (void)&v[i];
                if (firstBad == 0) firstBad = i;
                PBT_CHECK(v.failureIndex == firstBad, "recorded index is ", v.failureIndex, ", the first bad access was ", firstBad);
            }
            break;
        }
        case 3: // copies and ranges
        {
            View<T> w = v;
            PBT_CHECK(w.data() == v.data() && w.size() == v.size() && w.abort == v.abort && w.failureIndex == v.failureIndex, "copy");
            size_t i = 0;
            for (auto& x : w)
            {
                PBT_CHECK(&x == first + i, "iteration element ", i);
                i++;
            }
            PBT_CHECK(i == n, "iteration visits ", i, " of ", n);
            if (n > 0)
            {
                size_t a = g.index(n), c = g.index(n - a + 1);
                auto s = w.subspan(a, c);
                PBT_CHECK(s.data() == first + a && s.size() == c, "subspan");
                View<T> sv(s);
                PBT_CHECK(sv.size() == c && (c == 0 || &sv[c - 1] == first + a + c - 1), "view of a subspan");
                PBT_CHECK(&w.front() == first && &w.back() == first + n - 1, "front and back");
            }
            const View<T>& cw = w;
            if (n > 0) PBT_CHECK(&cw[n - 1] == first + n - 1, "const view");
            break;
        }
        default:
            v.abort = g.boolean();
        }
        PBT_CHECK(v.failureIndex == firstBad, "an access in range recorded a failure at ", v.failureIndex);
    }
    PBT_CHECK(buf == model, "the viewed memory differs");
    if (!debug && n > 0 && ops > 3) g.nontrivial();
}

PBT(views, 300000, 5000000, debug ? "an access out of range" : "more than three accesses")
{
    switch (g.index(3))
    {
    case 0:
        through<int>(g);
        break;
    case 1:
        through<double>(g);
        break;
    default:
        through<Odd>(g);
    }
}
