// C13: Field against a model of values, on every executor.
#include "num.hpp"
#include "../core/forked.hpp"

using namespace num;

template<typename T>
struct Obj
{
    std::unique_ptr<Field<T>> f;
    std::vector<T> m;
    size_t exec; // 0..2
};
template<typename T>
static void agree(const Obj<T>& o, size_t k)
{
    const Field<T>& f = *o.f;
    PBT_CHECK(f.size() == o.m.size(), "field ", k, " has ", f.size(), " elements, expected ", o.m.size());
    PBT_CHECK(f.empty() == o.m.empty() && f.ssize() == label(o.m.size()), "field ", k, ": empty() or ssize()");
    PBT_CHECK(f.range().first == 0 && f.range().second == o.m.size(), "field ", k, ": range()");
    PBT_CHECK(f.exec() == executor(o.exec), "field ", k, " is on ", name(f.exec()));
    auto v = f.view();
    PBT_CHECK(v.size() == o.m.size() && v.data() == f.data(), "view of field ", k);
    exact(host(f), o.m, "field " + std::to_string(k));
}

template<typename T>
static T mulBy(const T& a, scalar s)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(a[0] * s, a[1] * s, a[2] * s);
    else return T(a * s);
}
template<typename T>
static T plus(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(a[0] + b[0], a[1] + b[1], a[2] + b[2]);
    else return T(a + b);
}
template<typename T>
static T minus(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(a[0] - b[0], a[1] - b[1], a[2] - b[2]);
    else return T(a - b);
}

template<typename T>
static void history(pbt::Gen& g)
{
    std::vector<Obj<T>> o;
    Kokkos::standin::seed(g.below(1u << 20));
    size_t ops = g.size(1, 25), deep = 0;
    auto create = [&](size_t n)
    {
        size_t e = g.index(3);
        Executor exec = executor(e);
        Obj<T> x;
        x.exec = e;
        switch (g.index(4))
        {
        case 0:
        {
            x.m = values<T>(g, n);
            g.note("field ", o.size(), ": ", n, " values from a vector on ", name(exec));
            x.f = std::make_unique<Field<T>>(exec, x.m);
            break;
        }
        case 1:
        {
            T v = value<T>(g);
            g.note("field ", o.size(), ": ", n, " equal values on ", name(exec));
            x.m.assign(n, v);
            x.f = std::make_unique<Field<T>>(exec, n, v);
            break;
        }
        case 2:
        {
            x.m = values<T>(g, n);
            g.note("field ", o.size(), ": ", n, " values from a pointer on ", name(exec));
            x.f = std::make_unique<Field<T>>(exec, x.m.data(), n);
            break;
        }
        default:
        {
            g.note("field ", o.size(), ": ", n, " values, uninitialised, then assigned one value, on ", name(exec));
            T v = value<T>(g);
            x.m.assign(n, v);
            x.f = std::make_unique<Field<T>>(exec, n);
            *x.f = v;
        }
        }
        o.push_back(std::move(x));
    };
    auto same = [&](size_t a) // an index of a field with a's size and executor, possibly a itself
    {
        std::vector<size_t> c;
        for (size_t i = 0; i < o.size(); i++)
            if (o[i].exec == o[a].exec && o[i].m.size() == o[a].m.size()) c.push_back(i);
        return g.pick(c);
    };
    create(g.size(0, 30));
    for (size_t op = 0; op < ops; op++)
    {
        size_t a = g.index(o.size());
        auto& A = o[a];
        size_t n = A.m.size();
        switch (g.weighted({2, 3, 3, 3, 3, 2, 3, 3, 3, 3, 2, 2, 2, 2, 2}))
        {
        case 0:
            if (o.size() < 6) create(g.boolean() ? n : g.size(0, 30));
            break;
        case 1: // copy
        {
            if (o.size() >= 6) break;
            g.note("field ", o.size(), " = copy of ", a);
            deep++;
            o.push_back({std::make_unique<Field<T>>(*A.f), A.m, A.exec});
            break;
        }
        case 2: // to an executor
        {
            if (o.size() >= 6) break;
            size_t e = g.index(3);
            g.note("field ", o.size(), " = ", a, " on ", name(executor(e)));
            deep++;
            if (g.boolean()) o.push_back({std::make_unique<Field<T>>(executor(e), *A.f), A.m, e});
            else if (g.chance(1, 3)) o.push_back({std::make_unique<Field<T>>(A.f->copyToHost()), A.m, 0});
            else o.push_back({std::make_unique<Field<T>>(A.f->copyToExecutor(executor(e))), A.m, e});
            break;
        }
        case 3: // move
        {
            if (o.size() >= 6) break;
            g.note("field ", o.size(), " = moved from ", a);
            o.push_back({std::make_unique<Field<T>>(std::move(*A.f)), A.m, A.exec});
            o[a].m.clear();
            break;
        }
        case 4: // assign a field on the same executor, of any size
        {
            std::vector<size_t> c;
            for (size_t i = 0; i < o.size(); i++)
                if (o[i].exec == A.exec) c.push_back(i);
            size_t b = g.pick(c);
            g.note("field ", a, " := field ", b);
            deep++;
            *A.f = *o[b].f;
            A.m = std::vector<T>(o[b].m);
            break;
        }
        case 5: // assign a value
        {
            T v = value<T>(g);
            g.note("field ", a, " := a value");
            *A.f = v;
            A.m.assign(n, v);
            break;
        }
        case 6: // resize; the common part stays, the rest is written at once
        {
            size_t k = g.size(0, 40);
            g.note("resize field ", a, " from ", n, " to ", k);
            A.f->resize(k);
            PBT_CHECK(A.f->size() == k, "size after resize");
            T v = value<T>(g);
            A.m.resize(k, v);
            if (k > n) fill(*A.f, v, {n, k});
            break;
        }
        case 7: // += -=
        {
            size_t b = same(a);
            bool p = g.boolean();
            g.note("field ", a, p ? " += " : " -= ", b);
            auto rhs = o[b].m;
            for (size_t i = 0; i < n; i++) A.m[i] = p ? plus(A.m[i], rhs[i]) : minus(A.m[i], rhs[i]);
            Field<T>& r = p ? (*A.f += *o[b].f) : (*A.f -= *o[b].f);
            PBT_CHECK(&r == A.f.get(), "result of += is another field");
            break;
        }
        case 8: // + -
        {
            if (o.size() >= 6) break;
            size_t b = same(a);
            bool p = g.boolean();
            g.note("field ", o.size(), " = ", a, p ? " + " : " - ", b);
            std::vector<T> m;
            for (size_t i = 0; i < n; i++) m.push_back(p ? plus(A.m[i], o[b].m[i]) : minus(A.m[i], o[b].m[i]));
            auto r = p ? *A.f + *o[b].f : *A.f - *o[b].f;
            o.push_back({std::make_unique<Field<T>>(std::move(r)), m, A.exec});
            break;
        }
        case 9: // scalar product
        {
            scalar s = g.real();
            if (g.boolean() || o.size() >= 6)
            {
                g.note("field ", a, " *= ", s);
                for (auto& x : A.m) x = mulBy(x, s);
                *A.f *= s;
            }
            else
            {
                g.note("field ", o.size(), " = ", a, " * ", s);
                std::vector<T> m;
                for (auto& x : A.m) m.push_back(mulBy(x, s));
                auto r = *A.f * s;
                o.push_back({std::make_unique<Field<T>>(std::move(r)), m, A.exec});
            }
            break;
        }
        case 10: // elementwise product
        {
            if constexpr (std::is_same_v<T, scalar>)
            {
                size_t b = same(a);
                auto rhs = o[b].m;
                if (g.boolean() || o.size() >= 6)
                {
                    g.note("field ", a, " *= field ", b);
                    for (size_t i = 0; i < n; i++) A.m[i] = A.m[i] * rhs[i];
                    *A.f *= *o[b].f;
                }
                else
                {
                    g.note("field ", o.size(), " = field ", a, " * field ", b);
                    auto m = A.m;
                    for (size_t i = 0; i < n; i++) m[i] = m[i] * rhs[i];
                    auto r = *A.f * *o[b].f;
                    o.push_back({std::make_unique<Field<T>>(std::move(r)), m, A.exec});
                }
            }
            break;
        }
        case 11: // fill a part
        {
            T v = value<T>(g);
            if (n == 0 || g.chance(1, 4))
            {
                g.note("fill field ", a);
                fill(*A.f, v);
                A.m.assign(n, v);
                break;
            }
            size_t s = g.index(n), e = s + 1 + g.index(n - s);
            g.note("fill field ", a, " in [", s, ", ", e, ")");
            fill(*A.f, v, {s, e});
            for (size_t i = s; i < e; i++) A.m[i] = v;
            break;
        }
        case 12: // map a part
        {
            size_t s = 0, e = n;
            bool part = n > 0 && g.boolean();
            if (part)
            {
                s = g.index(n);
                e = s + 1 + g.index(n - s);
            }
            T v = value<T>(g);
            auto fn = [v](const size_t i) -> T { return mulBy(v, scalar(i)); };
            g.note("map field ", a, " in [", s, ", ", e, ")");
            if (part) map(*A.f, fn, {s, e});
            else if (g.boolean()) A.f->apply(fn);
            else map(*A.f, fn);
            for (size_t i = s; i < e; i++) A.m[i] = mulBy(v, scalar(i));
            break;
        }
        case 13: // set from a view of another field
        {
            size_t b = same(a);
            size_t s = 0, e = n;
            bool part = n > 0 && g.boolean();
            if (part)
            {
                s = g.index(n);
                e = s + 1 + g.index(n - s);
            }
            g.note("set field ", a, " from field ", b, " in [", s, ", ", e, ")");
            deep++;
            const Field<T>& B = *o[b].f;
            if (part) setField(*A.f, B.view(), {s, e});
            else setField(*A.f, B.view());
            for (size_t i = s; i < e; i++) A.m[i] = o[b].m[i];
            break;
        }
        default: // write through a view of a part
        {
            if (n == 0) break;
            size_t s = g.index(n), e = s + 1 + g.index(n - s);
            auto v = A.f->view({s, e});
            PBT_CHECK(v.size() == e - s && v.data() == A.f->data() + s, "view of part of field ", a);
            size_t i = g.index(e - s);
            T x = value<T>(g);
            g.note("write through a view of field ", a, " in [", s, ", ", e, ")");
            auto all = everywhere();
            v[i] = x;
            A.m[s + i] = x;
        }
        }
        for (size_t k = 0; k < o.size(); k++) agree(o[k], k);
    }
    if (deep && o.size() > 1 && ops > 4) g.nontrivial();
    // comparison
    for (size_t a = 0; a < o.size(); a++)
        for (size_t b = 0; b < o.size(); b++)
        {
            bool want = o[a].m.size() == o[b].m.size();
            for (size_t i = 0; want && i < o[a].m.size(); i++) want = num::same(o[a].m[i], o[b].m[i]);
            const Field<T>& A = *o[a].f;
            const Field<T>& B = *o[b].f;
            PBT_CHECK(equal(A, B) == want, "equal(field ", a, ", field ", b, ") is ", !want);
        }
    // copies share nothing: writing one field leaves the others
    for (size_t a = 0; a < o.size(); a++)
        for (size_t b = 0; b < a; b++)
            PBT_CHECK(o[a].m.empty() || o[b].m.empty() || o[a].f->data() != o[b].f->data(), "fields ", a, " and ", b, " share memory");
}

PBT(scalar_history, 8000, 400000, "more than four operations over several fields, one of them a copy, a transfer or an assignment")
{
    balanced([&] { history<scalar>(g); });
}
PBT(vector_history, 4000, 200000, "as for scalars")
{
    balanced([&] { history<Vector>(g); });
}

PBT(equal_to_a_value, 3000, 100000, "a field of at least two elements of which one differs")
{
    auto exec = executor(g);
    size_t n = g.size(0, 20);
    scalar v = g.real();
    std::vector<scalar> m(n, v);
    size_t wrong = g.boolean() && n ? 1 + g.index(n) : 0;
    if (wrong) m[wrong - 1] = v + 1;
    if (n > 1 && wrong) g.nontrivial();
    Field<scalar> f(exec, m);
    PBT_CHECK(equal(f, v) == !wrong, "equal(field, value) with ", n, " elements, element ", long(wrong) - 1, " differs");
}

PBT(equal_to_a_view, 3000, 100000, "a field of at least two elements of which one differs")
{
    auto exec = executor(g);
    size_t n = g.size(0, 20);
    auto m = values<scalar>(g, n), w = m;
    Field<scalar> f(exec, m);
    bool longer = g.chance(1, 4);
    if (longer) w.push_back(1);
    size_t wrong = g.boolean() && n ? 1 + g.index(n) : 0;
    if (wrong) w[wrong - 1] += 1;
    if (n > 1 && wrong) g.nontrivial();
    const Field<scalar>& cf = f;
    PBT_CHECK(equal(cf, NeoFOAM::View<scalar>(w.data(), w.size())) == (!wrong && !longer), "equal(field, view) with ", n, " elements");
}

PBT(copy_to_host_into, 2000, 50000, "a field on another executor than the host's, of another size than the target")
{
    balanced([&] {
        auto exec = executor(g);
        size_t n = g.size(0, 20);
        auto m = values<scalar>(g, n);
        Field<scalar> f(exec, m), h(NeoFOAM::SerialExecutor {}, n, 7.0);
        f.copyToHost(h);
        exact(host(h), m, "host field");
        if (n > 1 && !(exec == h.exec())) g.nontrivial();
        auto c = f.copyToHost();
        PBT_CHECK(c.exec() == executor(0), "copyToHost() is on ", name(c.exec()));
        exact(host(c), m, "copyToHost()");
        auto [a, b] = NeoFOAM::copyToHosts(f, h);
        exact(host(a), m, "copyToHosts 0");
        exact(host(b), m, "copyToHosts 1");
        auto [va, vb] = NeoFOAM::spans(a, b);
        PBT_CHECK(va.data() == a.data() && vb.data() == b.data() && va.size() == n, "spans");
    });
}

// a binary operation of fields of different lengths, or an assignment across executors, must not go on
PBT(mismatches_are_refused, 250, 5000, "every case")
{
    g.nontrivial();
    size_t ea = g.index(3), eb = g.boolean() ? ea : g.index(3);
    size_t n = g.size(0, 12), k = ea == eb ? n + 1 + g.index(5) : n;
    bool swap = g.boolean();
    std::vector<scalar> ma = values<scalar>(g, swap ? k : n), mb = values<scalar>(g, swap ? n : k);
    size_t what = ea != eb ? 4 : g.index(4);
    g.note("operation ", what, " of ", ma.size(), " elements on ", name(executor(ea)), " and ", mb.size(), " on ", name(executor(eb)));
    Field<scalar> a(executor(ea), ma), b(executor(eb), mb);
    auto r = forked([&] {
        switch (what)
        {
        case 0: add(a, b); break;
        case 1: sub(a, b); break;
        case 2: mul(a, b); break;
        case 3: a += b; break;
        default: a = b;
        }
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on");
}
