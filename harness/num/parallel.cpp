// C12: parallelFor, parallelReduce, parallelScan on every executor, under any schedule.
#include "num.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
using namespace num;
using namespace NeoFOAM;

static std::pair<size_t, size_t> interval(pbt::Gen& g, size_t n)
{
    size_t b = g.chance(1, 3) ? 0 : g.index(n + 1);
    size_t e = g.chance(1, 3) ? n : b + g.index(n - b + 1);
    return {b, e};
}

PBT(for_visits_each_index_once, 4000, 200000, "a range of at least two indices that leaves part of the data out")
{
    auto exec = executor(g);
    size_t n = g.size(0, 300);
    auto [b, e] = interval(g, n);
    g.note("range [", b, ", ", e, ") of ", n);
    if (e > b + 1 && e - b < n) g.nontrivial();
    auto init = values<scalar>(g, std::min<size_t>(n, 40));
    init.resize(n, 3.0);
    auto f = field(exec, init);
    std::vector<int> visits(n, 0);
    auto v = f.view();
    int* count = visits.data();
    auto body = [=](const size_t i)
    {
        count[i]++;
        v[i] = 2 * v[i] + scalar(i);
    };
    if (g.boolean()) parallelFor(exec, {b, e}, body);
    else parallelFor(exec, {b, e}, body, "a name");
    auto want = init;
    for (size_t i = b; i < e; i++) want[i] = 2 * init[i] + scalar(i);
    for (size_t i = 0; i < n; i++)
        PBT_CHECK(visits[i] == (i >= b && i < e ? 1 : 0), "index ", i, " was visited ", visits[i], " times");
    exact(host(f), want, "field");
}

template<typename T>
static void assignAll(pbt::Gen& g)
{
    auto exec = executor(g);
    size_t n = g.size(0, 300);
    g.note("field of ", n);
    if (n > 1) g.nontrivial();
    Field<T> f(exec, n);
    auto src = field(exec, values<T>(g, std::min<size_t>(n, 30)));
    std::vector<int> visits(n, 0);
    int* count = visits.data();
    auto sv = src.view();
    size_t m = src.size();
    parallelFor(
        f, [=](const size_t i) -> T
        {
            count[i]++;
            return sv[i % m];
        }
    );
    auto s = host(src);
    auto got = host(f);
    for (size_t i = 0; i < n; i++)
    {
        PBT_CHECK(visits[i] == 1, "index ", i, " was evaluated ", visits[i], " times");
        PBT_CHECK(same(got[i], s[i % m]), "element ", i);
    }
}
PBT(for_field_assigns_each_element, 3000, 100000, "a field of at least two elements")
{
    if (g.boolean()) assignAll<Vector>(g);
    else assignAll<scalar>(g);
}

// sums of small integers are exact in any order
PBT(reduce_sum, 6000, 200000, "at least two terms")
{
    auto exec = executor(g);
    size_t n = g.size(0, 300);
    bool whole = g.boolean();
    auto [b, e] = whole ? std::pair<size_t, size_t> {0, n} : interval(g, n);
    std::vector<scalar> data;
    for (size_t i = 0; i < n; i++) data.push_back(i < 60 ? scalar(g.range(-20, 20)) : scalar(i % 7));
    auto f = field(exec, data);
    scalar initial = g.boolean() ? 0.0 : scalar(g.range(-9, 9));
    g.note("sum over [", b, ", ", e, ") of ", n, ", result variable holds ", initial);
    if (e > b + 1) g.nontrivial();
    scalar want = 0;
    for (size_t i = b; i < e; i++) want += data[i];
    auto v = f.view();
    scalar got = initial;
    switch (g.index(2))
    {
    case 0:
    {
        auto k = [=](const size_t i, scalar& s) { s += v[i]; };
        if (whole) parallelReduce(f, k, got);
        else parallelReduce(exec, {b, e}, k, got);
        break;
    }
    default:
    {
        Kokkos::Sum<scalar> r(got);
        auto k = [=](const size_t i, scalar& s) { s += v[i]; };
        if (whole) parallelReduce(f, k, r);
        else parallelReduce(exec, {b, e}, k, r);
    }
    }
    PBT_CHECK(got == want, "sum is ", got, ", expected ", want);
}

PBT(reduce_count, 3000, 100000, "at least two terms")
{
    // an integral result, from a field of vectors
    auto exec = executor(g);
    size_t n = g.size(0, 200);
    auto data = values<Vector>(g, std::min<size_t>(n, 40));
    data.resize(n, Vector(1, -1, 0));
    auto f = field(exec, data);
    size_t initial = g.boolean() ? 0 : g.index(9);
    if (n > 1) g.nontrivial();
    size_t want = 0, got = initial;
    for (auto& x : data) want += x[0] > 0;
    auto v = f.view();
    parallelReduce(
        f, [=](const size_t i, size_t& s) { s += v[i][0] > 0 ? 1 : 0; }, got
    );
    PBT_CHECK(got == want, "count is ", got, ", expected ", want, " (result variable held ", initial, ")");
}

PBT(reduce_extremum, 6000, 200000, "at least two terms, all of them on the other side of zero")
{
    auto exec = executor(g);
    size_t n = g.size(0, 200);
    bool whole = g.boolean(), max = g.boolean();
    auto [b, e] = whole ? std::pair<size_t, size_t> {0, n} : interval(g, n);
    double shift = g.boolean() ? 0 : max ? -1000 : 1000;
    std::vector<scalar> data;
    for (size_t i = 0; i < n; i++) data.push_back(shift + (i < 60 ? g.real() : double(i % 5)));
    auto f = field(exec, data);
    if (e > b + 1 && shift) g.nontrivial();
    scalar got = g.boolean() ? (max ? std::numeric_limits<scalar>::lowest() : std::numeric_limits<scalar>::max()) : g.real(2000);
    g.note(max ? "max" : "min", " over [", b, ", ", e, ") of ", n, ", result variable holds ", got);
    scalar want = max ? std::numeric_limits<scalar>::lowest() : std::numeric_limits<scalar>::max();
    for (size_t i = b; i < e; i++) want = max ? std::max(want, data[i]) : std::min(want, data[i]);
    auto v = f.view();
    if (max)
    {
        Kokkos::Max<scalar> r(got);
        auto k = [=](const size_t i, scalar& s) { if (s < v[i]) s = v[i]; };
        if (whole) parallelReduce(f, k, r);
        else parallelReduce(exec, {b, e}, k, r);
    }
    else
    {
        Kokkos::Min<scalar> r(got);
        auto k = [=](const size_t i, scalar& s) { if (v[i] < s) s = v[i]; };
        if (whole) parallelReduce(f, k, r);
        else parallelReduce(exec, {b, e}, k, r);
    }
    PBT_CHECK(got == want, "result is ", got, ", expected ", want);
}

PBT(scan_is_running_total, 6000, 200000, "at least three elements, a range that starts past zero or a returned total")
{
    auto exec = executor(g);
    size_t n = g.size(0, 300);
    auto [b, e] = interval(g, n);
    std::vector<localIdx> data;
    for (size_t i = 0; i < n; i++) data.push_back(i < 60 ? localIdx(g.range(0, 9)) : localIdx(i % 4));
    auto in = field(exec, data);
    Field<localIdx> out(exec, n);
    put(out, std::vector<localIdx>(n, 7777));
    auto iv = in.view();
    auto ov = out.view();
    bool exclusive = g.boolean(), ret = g.boolean();
    g.note(exclusive ? "exclusive" : "inclusive", " scan over [", b, ", ", e, ") of ", n, ret ? " with total" : "");
    if (e > b + 2 && (b || ret)) g.nontrivial();
    auto k = [=](const size_t i, localIdx& update, const bool final)
    {
        if (exclusive && final) ov[i] = update;
        update += iv[i];
        if (!exclusive && final) ov[i] = update;
    };
    localIdx total = localIdx(g.index(5)), sum = 0;
    if (ret) parallelScan(exec, {b, e}, k, total);
    else parallelScan(exec, {b, e}, k);
    std::vector<localIdx> want(n, 7777);
    for (size_t i = b; i < e; i++)
    {
        if (exclusive) want[i] = sum;
        sum += data[i];
        if (!exclusive) want[i] = sum;
    }
    auto got = host(out);
    for (size_t i = 0; i < n; i++)
        PBT_CHECK(got[i] == want[i], "position ", i, " is ", got[i], ", expected ", want[i]);
    if (ret) PBT_CHECK(total == sum, "total is ", total, ", expected ", sum);
}

PBT(executors_compare_by_kind, 200, 2000, "two different executors")
{
    size_t a = g.index(3), b = g.index(3);
    Executor x = executor(a), y = executor(b);
    if (a != b) g.nontrivial();
    PBT_CHECK((x == y) == (a == b) && (x != y) == (a != b), name(x), " and ", name(y));
    PBT_CHECK(name(x) == (a == 0 ? "SerialExecutor" : a == 1 ? "CPUExecutor" : "GPUExecutor"), name(x));
}
