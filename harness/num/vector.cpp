// C14: the Vector primitive against its components.
#include <cmath>
#include <limits>
#include <sstream>
#include "num.hpp"
using namespace num;

static bool is(const Vector& v, double x, double y, double z) { return v[0] == x && v[1] == y && v[2] == z; }

PBT(algebra_is_componentwise, 20000, 1000000, "two vectors whose components are all different and nonzero")
{
    scalar a[3], b[3];
    for (auto& x : a) x = g.real();
    for (auto& x : b) x = g.real();
    scalar s = g.real();
    label n = label(g.range(-1000, 1000));
    std::set<scalar> all;
    for (auto x : a) all.insert(x);
    for (auto x : b) all.insert(x);
    if (all.size() == 6 && !all.count(0.0)) g.nontrivial();
    Vector A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
    g.note(str(A), " ", str(B), " scalar ", s, " label ", n);
    const Vector cA = A;
    PBT_CHECK(A.size() == 3 && cA.size() == 3, "size");
    for (size_t k = 0; k < 3; k++)
        PBT_CHECK(A[k] == a[k] && A(k) == a[k] && cA[k] == a[k] && cA(k) == a[k] && A.data()[k] == a[k] && cA.data()[k] == a[k], "component ", k);
    PBT_CHECK(is(A + B, a[0] + b[0], a[1] + b[1], a[2] + b[2]), "+");
    PBT_CHECK(is(A - B, a[0] - b[0], a[1] - b[1], a[2] - b[2]), "-");
    PBT_CHECK(is(A * s, a[0] * s, a[1] * s, a[2] * s), "vector * scalar");
    PBT_CHECK(is(s * A, a[0] * s, a[1] * s, a[2] * s), "scalar * vector");
    PBT_CHECK(is(A * n, a[0] * n, a[1] * n, a[2] * n), "vector * label");
    PBT_CHECK(is(A, a[0], a[1], a[2]) && is(B, b[0], b[1], b[2]), "an operand changed");
    {
        Vector C = A;
        Vector& r = (C += B);
        PBT_CHECK(&r == &C && is(C, a[0] + b[0], a[1] + b[1], a[2] + b[2]), "+=");
        Vector D = A;
        Vector& q = (D -= B);
        PBT_CHECK(&q == &D && is(D, a[0] - b[0], a[1] - b[1], a[2] - b[2]), "-=");
        Vector E = A;
        Vector& p = (E *= s);
        PBT_CHECK(&p == &E && is(E, a[0] * s, a[1] * s, a[2] * s), "*=");
        Vector F = A;
        F += F;
        PBT_CHECK(is(F, 2 * a[0], 2 * a[1], 2 * a[2]), "v += v");
        F -= F;
        PBT_CHECK(is(F, 0, 0, 0), "v -= v");
        size_t k = g.index(3);
        Vector G = A;
        G *= G[k];
        PBT_CHECK(is(G, a[0] * a[k], a[1] * a[k], a[2] * a[k]), "v *= v[", k, "] gives ", str(G));
        Vector H = A;
        H *= H(k);
        PBT_CHECK(is(H, a[0] * a[k], a[1] * a[k], a[2] * a[k]), "v *= v(", k, ") gives ", str(H));
        Vector I = A;
        I *= I.data()[k];
        PBT_CHECK(is(I, a[0] * a[k], a[1] * a[k], a[2] * a[k]), "v *= v.data()[", k, "] gives ", str(I));
        Vector J = A;
        J = J[k] * J;
        PBT_CHECK(is(J, a[0] * a[k], a[1] * a[k], a[2] * a[k]), "v = v[", k, "] * v gives ", str(J));
    }
    double scale = std::fabs(a[0] * b[0]) + std::fabs(a[1] * b[1]) + std::fabs(a[2] * b[2]);
    PBT_CHECK(close(A & B, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], scale, 1e-14), "inner product");
    PBT_CHECK(close(A & B, B & A, scale, 1e-14), "the inner product commutes");
    double m = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    PBT_CHECK(close(mag(A), m, m, 1e-14), "magnitude");
    PBT_CHECK(close(mag(A) * mag(A), A & A, m * m, 1e-13), "|v|^2 = v . v");
    PBT_CHECK(NeoFOAM::mag(s) == std::fabs(s), "magnitude of a scalar");
}

// exponents whose sums stay far from the ends of the range
constexpr int FAR = sizeof(scalar) == 4 ? 45 : 400;
static scalar anyMagnitude(pbt::Gen& g)
{
    scalar x = scalar(g.real());
    return std::ldexp(x, int(g.range(-FAR, FAR)));
}
// the neighbouring number, or one further away
static scalar other(pbt::Gen& g, scalar x)
{
    switch (g.index(5))
    {
    case 0: return std::nextafter(x, scalar(g.boolean() ? INFINITY : -INFINITY));
    case 1: return scalar(x + (std::fabs(x) + 1e-30) * 50 * std::numeric_limits<scalar>::epsilon());
    case 2: return x == 0 ? 4 * std::numeric_limits<scalar>::min() : -x;
    case 3: return x == 0 ? std::numeric_limits<scalar>::denorm_min() : 0;
    default: return x + 1 == x ? x * 2 : x + 1;
    }
}
PBT(equality_needs_every_component, 40000, 1000000, "vectors that differ in one component or two")
{
    Vector a = value<Vector>(g);
    if (g.boolean()) a = Vector(anyMagnitude(g), anyMagnitude(g), anyMagnitude(g));
    if (g.chance(1, 4)) a[g.index(3)] = 0.0;
    Vector b = a;
    size_t n = g.index(3), changed = 0;
    for (size_t i = 0; i < n; i++)
    {
        size_t k = g.index(3);
        b[k] = other(g, a[k]);
    }
    for (size_t k = 0; k < 3; k++) changed += a[k] != b[k];
    if (changed) g.nontrivial();
    PBT_CHECK((a == b) == (changed == 0) && (b == a) == (changed == 0), str(a), " == ", str(b));
    Vector c = a;
    for (size_t k = 0; k < 3; k++) c(k) = b(k);
    PBT_CHECK(c == b && (c == a) == (changed == 0), "assigning the components");
    Vector d = a, e = a;
    size_t k = g.index(3);
    d[k] = 0.0;
    e[k] = -0.0;
    PBT_CHECK(d == e, "zero and minus zero differ");
    e[k] = std::nan("");
    PBT_CHECK(!(d == e) && !(e == d) && !(e == Vector(e)), "something equals a vector with a component that is not a number");
    d[k] = e[k] = g.boolean() ? INFINITY : -INFINITY;
    PBT_CHECK(d == e, "infinite components");
}

// scaling by a power of two is exact, as long as nothing overflows
PBT(algebra_at_every_magnitude, 20000, 400000, "magnitudes far apart")
{
    Vector a = value<Vector>(g), b = value<Vector>(g);
    int p = int(g.range(-FAR, FAR)), q = int(g.range(-FAR, FAR));
    auto by = [](const Vector& v, int k) { return Vector(std::ldexp(v[0], k), std::ldexp(v[1], k), std::ldexp(v[2], k)); };
    const double eps = sizeof(scalar) == 4 ? 1e-6 : 1e-14;
    Vector A = by(a, p), B = by(b, p), C = by(b, q);
    g.note(str(A), " ", str(B), " ", str(C));
    if (std::abs(p - q) > FAR / 4) g.nontrivial();
    PBT_CHECK(same(A + B, by(a + b, p)) && same(A - B, by(a - b, p)), "sum or difference");
    PBT_CHECK(same(A * std::ldexp(1.0, q), by(a, p + q)) && same(std::ldexp(1.0, q) * A, by(a, p + q)), "scaling");
    double ab = std::ldexp(norm(a) * norm(b), p + q);
    PBT_CHECK(std::fabs((A & C) - std::ldexp(a & b, p + q)) <= eps * ab, "inner product is ", str(A & C), ", expected ", str(std::ldexp(a & b, p + q)));
    PBT_CHECK(std::fabs(mag(A) - std::ldexp(mag(a), p)) <= eps * std::ldexp(mag(a), p), "magnitude is ", str(mag(A)), ", expected ", str(std::ldexp(mag(a), p)));
    PBT_CHECK(is(A + C, A[0] + C[0], A[1] + C[1], A[2] + C[2]) && is(A - C, A[0] - C[0], A[1] - C[1], A[2] - C[2]), "sum or difference of magnitudes apart");
}

PBT(construction_and_text, 3000, 50000, "every case")
{
    g.nontrivial();
    scalar s = g.real();
    PBT_CHECK(is(Vector(), 0, 0, 0), "default");
    PBT_CHECK(is(Vector(s), s, s, s), "Vector(", s, ")");
    PBT_CHECK(is(NeoFOAM::one<Vector>(), 1, 1, 1) && is(NeoFOAM::zero<Vector>(), 0, 0, 0), "one, zero");
    PBT_CHECK(NeoFOAM::one<scalar>() == 1 && NeoFOAM::zero<scalar>() == 0, "one, zero of scalars");
    Vector v(double(g.range(-99, 99)), double(g.range(-99, 99)), double(g.range(-99, 99)) / 4);
    std::ostringstream o, w;
    o << v;
    w << "(" << v[0] << " " << v[1] << " " << v[2] << ")";
    PBT_CHECK(o.str() == w.str(), "text is ", o.str(), ", expected ", w.str());
}
