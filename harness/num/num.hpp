// Common to the harnesses of the part of the project that computes: executors, schedules, host copies, numbers, comparison.
#pragma once
#include <Kokkos_Core.hpp>
#include "../pbt.hpp"
#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/core/primitives/scalar.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/fields/field.hpp"

namespace num
{
using NeoFOAM::Executor;
using NeoFOAM::Field;
using NeoFOAM::label;
using NeoFOAM::localIdx;
using NeoFOAM::scalar;
using NeoFOAM::Vector;

#ifndef NEOFOAM_DP_SCALAR
// single precision: the harness computes its references in double precision
inline Vector operator*(const Vector& v, double s) { return v * scalar(s); }
inline Vector operator*(double s, const Vector& v) { return v * scalar(s); }
#endif
// what is left of a tolerance meant for double precision
inline double tolerance(double tol) { return sizeof(scalar) == 4 ? std::max(tol, std::sqrt(tol) * 100) : tol; }

inline Executor executor(size_t k)
{
    switch (k)
    {
    case 0:
        return NeoFOAM::SerialExecutor {};
    case 1:
        return NeoFOAM::CPUExecutor {};
    default:
        return NeoFOAM::GPUExecutor {};
    }
}
inline std::string name(const Executor& e)
{
    return std::visit([](const auto& x) { return x.name(); }, e);
}

// draws an executor and a schedule
inline Executor executor(pbt::Gen& g)
{
    auto e = executor(g.index(3));
    Kokkos::standin::seed(g.below(1u << 20));
    g.note("on ", name(e));
    g.label(name(e));
    return e;
}

// while it lives, the harness may touch the memory of every executor
inline Kokkos::standin::At everywhere() { return Kokkos::standin::At(Kokkos::standin::Where::both); }

// the contents of a field, whatever its executor
template<typename T>
std::vector<T> host(const Field<T>& f)
{
    auto all = everywhere();
    return std::vector<T>(f.data(), f.data() + f.size());
}
template<typename T>
Field<T> field(const Executor& e, const std::vector<T>& v)
{
    Field<T> f(e, v.size());
    auto all = everywhere();
    for (size_t i = 0; i < v.size(); i++) f.data()[i] = v[i];
    return f;
}
template<typename T>
void put(Field<T>& f, const std::vector<T>& v)
{
    PBT_CHECK(f.size() == v.size(), "harness: size of the field is ", f.size(), ", not ", v.size());
    auto all = everywhere();
    for (size_t i = 0; i < v.size(); i++) f.data()[i] = v[i];
}

// ---- printing and comparing
inline std::string str(double v)
{
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
inline std::string str(const Vector& v) { return "(" + str(v[0]) + " " + str(v[1]) + " " + str(v[2]) + ")"; }
template<typename T>
std::string str(const std::vector<T>& v, size_t most = 12)
{
    std::string s = "{";
    for (size_t i = 0; i < v.size() && i < most; i++) s += (i ? ", " : "") + str(v[i]);
    return s + (v.size() > most ? ", ...}" : "}");
}

inline double norm(double v) { return std::fabs(v); }
inline double norm(const Vector& v) { return std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]); }
inline bool same(double a, double b) { return a == b; }
inline bool same(const Vector& a, const Vector& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }

// equal up to rounding: `scale` bounds the terms that were added up
inline bool close(double a, double b, double scale, double tol = 1e-10)
{
    return std::fabs(a - b) <= tolerance(tol) * (scale + std::fabs(b)) + (sizeof(NeoFOAM::scalar) == 4 ? 1e-37 : 1e-300);
}
inline bool close(const Vector& a, const Vector& b, double scale, double tol = 1e-10)
{
    double s = scale + norm(b);
    for (size_t k = 0; k < 3; k++)
        if (!close(a[k], b[k], s, tol)) return false;
    return true;
}

template<typename T>
void exact(const std::vector<T>& got, const std::vector<T>& want, const std::string& what)
{
    PBT_CHECK(got.size() == want.size(), what, ": ", got.size(), " elements, expected ", want.size());
    for (size_t i = 0; i < got.size(); i++)
        PBT_CHECK(same(got[i], want[i]), what, "[", i, "] is ", str(got[i]), ", expected ", str(want[i]));
}
template<typename T>
void near(const std::vector<T>& got, const std::vector<T>& want, double scale, const std::string& what, double tol = 1e-10)
{
    PBT_CHECK(got.size() == want.size(), what, ": ", got.size(), " elements, expected ", want.size());
    for (size_t i = 0; i < got.size(); i++)
        PBT_CHECK(close(got[i], want[i], scale, tol), what, "[", i, "] is ", str(got[i]), ", expected ", str(want[i]));
}
template<typename T>
double magnitude(const std::vector<T>& v)
{
    double m = 0;
    for (const auto& x : v) m = std::max(m, norm(x));
    return m;
}

// ---- generated values
template<typename T>
T value(pbt::Gen& g)
{
    if constexpr (std::is_same_v<T, Vector>)
    {
        double x = g.real(), y = g.real(), z = g.real();
        return Vector(x, y, z);
    }
    else if constexpr (std::is_floating_point_v<T>) return T(g.real());
    else if constexpr (std::is_signed_v<T>) return T(g.range(-50, 50));
    else return T(g.range(0, 50));
}
template<typename T>
std::vector<T> values(pbt::Gen& g, size_t n)
{
    std::vector<T> v;
    for (size_t i = 0; i < n; i++) v.push_back(value<T>(g));
    return v;
}
inline std::vector<scalar> positives(pbt::Gen& g, size_t n, double lo = 0.1, double hi = 4.0)
{
    std::vector<scalar> v;
    for (size_t i = 0; i < n; i++) v.push_back(g.positive(lo, hi));
    return v;
}

// runs f and requires every allocation it made to be given back
template<typename F>
void balanced(F f)
{
    long before = Kokkos::standin::state().live;
    f();
    long after = Kokkos::standin::state().live;
    PBT_CHECK(before == after, "allocations never given back: ", after - before);
}

// a failed NF_ASSERT is fatal (std::exit / abort) in released builds; run f in a child and say whether it got to the end
}
