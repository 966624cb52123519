// C15: SegmentedField.
#include "num.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
#include "../core/forked.hpp"
using namespace num;
using NeoFOAM::SegmentedField;

template<typename T, typename I>
static void fromIntervals(pbt::Gen& g)
{
    auto exec = executor(g);
    size_t n = g.size(0, 60);
    std::vector<I> len;
    bool empty = false;
    for (size_t i = 0; i < n; i++)
    {
        len.push_back(I(g.chance(1, 4) ? 0 : g.range(0, 9)));
        empty = empty || len.back() == 0;
    }
    g.note(n, " segments");
    if (n > 2 && empty) g.nontrivial();
    auto intervals = field(exec, len);
    SegmentedField<T, I> s(intervals);
    size_t total = 0;
    for (auto x : len) total += x;
    exact(host(intervals), len, "intervals");
    PBT_CHECK(s.numSegments() == n, s.numSegments(), " segments, expected ", n);
    PBT_CHECK(s.size() == total && s.values().size() == total, s.size(), " values, expected ", total);
    PBT_CHECK(s.exec() == exec && s.values().exec() == exec && s.segments().exec() == exec, "executor");
    PBT_CHECK(s.segments().size() == n + 1, "offsets");
    auto off = host(s.segments());
    std::vector<I> want {0};
    for (auto x : len) want.push_back(want.back() + x);
    for (size_t i = 0; i <= n; i++)
        PBT_CHECK(off[i] == want[i], "offset ", i, " is ", off[i], ", expected ", want[i]);
    // the segments partition the values
    auto view = s.view();
    auto [vals, segs] = s.spans();
    PBT_CHECK(vals.size() == total && segs.size() == n + 1, "spans");
    size_t at = 0;
    auto all = everywhere();
    for (size_t i = 0; i < n; i++)
    {
        auto b = view.bounds(i);
        auto r = view.range(i);
        auto sp = view.span(i);
        PBT_CHECK(b.first == want[i] && b.second == want[i + 1], "bounds of segment ", i);
        PBT_CHECK(r.first == want[i] && r.second == len[i], "range of segment ", i);
        PBT_CHECK(view[i] == want[i], "offset of segment ", i);
        PBT_CHECK(sp.size() == size_t(len[i]), "span of segment ", i);
        for (size_t k = 0; k < sp.size(); k++)
        {
            PBT_CHECK(&sp[k] == s.values().data() + at, "segment ", i, " element ", k);
            sp[k] = T(i * 100 + k);
            at++;
        }
    }
    PBT_CHECK(at == total, "segments do not cover the values");
    // a copy is independent
    SegmentedField<T, I> c(s);
    auto before = host(s.values());
    for (auto& x : c.view().values) x = T(-5);
    exact(host(s.values()), before, "values after a copy was changed");
    for (size_t i = 0; i <= n; i++) PBT_CHECK(c.view()[i] == want[i], "offsets of the copy");
}
PBT(from_intervals, 5000, 200000, "more than two segments, one of them empty")
{
    balanced([&] {
        switch (g.below(4))
        {
        case 0: return fromIntervals<scalar, localIdx>(g);
        case 1: return fromIntervals<label, localIdx>(g);
        case 2: return fromIntervals<Vector, NeoFOAM::globalIdx>(g);
        default: return fromIntervals<NeoFOAM::globalIdx, label>(g);
        }
    });
}

PBT(from_values_and_offsets, 4000, 100000, "at least three segments")
{
    balanced([&] {
        auto exec = executor(g);
        size_t n = g.size(0, 20);
        std::vector<localIdx> off {0};
        for (size_t i = 0; i < n; i++) off.push_back(off.back() + localIdx(g.range(0, 5)));
        auto vals = values<scalar>(g, off.back());
        if (n > 2) g.nontrivial();
        auto vf = field(exec, vals);
        auto of = field(exec, off);
        SegmentedField<scalar, localIdx> s(vf, of);
        PBT_CHECK(s.numSegments() == n && s.size() == vals.size(), "sizes");
        exact(host(s.values()), vals, "values");
        auto v = s.view();
        // a kernel over the segments, as the users of the class write it
        Field<scalar> sums(exec, n, 0.0);
        auto sv = sums.view();
        NeoFOAM::parallelFor(
            exec, {0, n}, [=](const size_t i)
            {
                for (auto x : v.span(i)) sv[i] += x;
            }
        );
        for (size_t i = 0; i < n; i++)
        {
            double w = 0, m = 0;
            for (size_t k = off[i]; k < off[i + 1]; k++) w += vals[k], m += std::fabs(vals[k]);
            double got = host(sums)[i];
            PBT_CHECK(close(got, w, m), "sum of segment ", i, " is ", got, ", expected ", w);
        }
        // writing through the field leaves what it was made from
        auto all = everywhere();
        for (auto& x : s.view().values) x = 1;
        exact(host(vf), vals, "the given values");
    });
}

PBT(sized, 500, 10000, "every case")
{
    balanced([&] {
        auto exec = executor(g);
        size_t n = g.size(0, 20), k = g.size(0, 20);
        SegmentedField<scalar, localIdx> s(exec, n, k);
        PBT_CHECK(s.size() == n && s.numSegments() == k && s.segments().size() == k + 1 && s.exec() == exec, "sizes");
        g.nontrivial();
    });
}

template<typename I>
static void offsets(pbt::Gen& g)
{
    auto exec = executor(g);
    size_t n = g.size(0, 80);
    std::vector<I> len, want {0};
    bool large = g.chance(1, 3);
    // together at most the largest index
    uint64_t most = large ? uint64_t(std::numeric_limits<I>::max()) / (n + 1) : 1000;
    for (size_t i = 0; i < n; i++) len.push_back(I(g.chance(1, 6) ? 0 : large && g.chance(1, 3) ? most - g.below(5) : g.below(most + 1)));
    for (auto x : len) want.push_back(I(want.back() + x));
    if (n > 2) g.nontrivial();
    if (large) g.label("up to the largest index");
    auto in = field(exec, len);
    Field<I> out(exec, n + 1, I(0));
    auto total = NeoFOAM::segmentsFromIntervals(in, out);
    PBT_CHECK(total == want.back(), "total ", total, ", expected ", want.back());
    auto all = everywhere();
    for (size_t i = 0; i <= n; i++) PBT_CHECK(out.data()[i] == want[i], "offset ", i, " is ", out.data()[i], ", expected ", want[i]);
    for (size_t i = 0; i < n; i++) PBT_CHECK(in.data()[i] == len[i], "interval ", i, " changed");
}

PBT(offsets_of_intervals, 6000, 200000, "at least three intervals")
{
    balanced([&] {
        switch (g.below(4))
        {
        case 0: return offsets<localIdx>(g);
        case 1: return offsets<label>(g);
        case 2: return offsets<NeoFOAM::globalIdx>(g);
        default: return offsets<NeoFOAM::localIdx>(g);
        }
    });
}
