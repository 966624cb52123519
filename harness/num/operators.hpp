// Finite-volume operators and their references on the host.
#pragma once
#include "fv.hpp"
#include "../core/forked.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/dsl/spatialOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"

namespace num
{
namespace dsl = NeoFOAM::dsl;
namespace la = NeoFOAM::la;
using Type = dsl::Operator::Type;

inline HostMesh operatorMesh(pbt::Gen& g)
{
    switch (g.index(5))
    {
    case 0:
    {
        size_t n = g.size(1, 25);
        g.note("1D mesh of ", n, " cells");
        return hostMesh(NeoFOAM::create1DUniformMesh(executor(0), n));
    }
    case 1:
    case 2: return boxMesh(g, 3);
    default: return graphMesh(g, 12);
    }
}

// ---- coefficients: a number, a field or both
struct HostCoeff
{
    double c = 1;
    std::vector<scalar> v;
    std::shared_ptr<Field<scalar>> store; // what the coefficient refers to
    double operator[](size_t i) const { return v.empty() ? c : c * v[i]; }
};
inline HostCoeff coefficient(pbt::Gen& g, const Executor& exec, size_t n)
{
    HostCoeff h;
    if (g.boolean()) h.c = g.real();
    if (g.boolean())
    {
        h.v = values<scalar>(g, n);
        h.store = std::make_shared<Field<scalar>>(field(exec, h.v));
    }
    g.note("coefficient ", str(h.c), h.v.empty() ? "" : " times " + str(h.v));
    return h;
}
inline dsl::Coeff coeff(const HostCoeff& h) { return h.store ? dsl::Coeff(h.c, *h.store) : dsl::Coeff(h.c); }

// ---- sums over the faces of each cell, with the size of what was added up
constexpr double COARSE = sizeof(scalar) == 4 ? 1.0 : 1e-3;
template<typename T>
struct Sums
{
    std::vector<T> v;
    std::vector<scalar> scale;
    explicit Sums(size_t n) : v(n, NeoFOAM::zero<T>()), scale(n, 0.0) {}
    void add(size_t i, const T& x)
    {
        v[i] = v[i] + x;
        scale[i] += norm(x);
    }
    void multiply(size_t i, double k)
    {
        v[i] = v[i] * k;
        scale[i] *= std::fabs(k);
    }
    void check(const std::vector<T>& got, const std::string& what, double tol = 1e-11) const
    {
        PBT_CHECK(got.size() == v.size(), what, ": ", got.size(), " cells, expected ", v.size());
        for (size_t i = 0; i < v.size(); i++)
            PBT_CHECK(close(got[i], v[i], scale[i], tol), what, " of cell ", i, " is ", str(got[i]), ", expected ", str(v[i]));
    }
    // on top of what was there before
    Sums over(const std::vector<T>& before) const
    {
        Sums r = *this;
        for (size_t i = 0; i < v.size(); i++) r.add(i, before[i]);
        return r;
    }
};
template<typename T>
Sums<T> faceSum(const HostMesh& m, const std::vector<T>& faces)
{
    Sums<T> s(m.nCells());
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        s.add(m.own[f], faces[f]);
        if (f < m.nInt()) s.add(m.nei[f], faces[f] * -1.0);
    }
    return s;
}
template<typename T>
Sums<T> perVolume(const HostMesh& m, Sums<T> s, const HostCoeff& k)
{
    for (size_t c = 0; c < m.nCells(); c++) s.multiply(c, k[c] / m.V[c]);
    return s;
}
template<typename T>
std::vector<T> faceValues(const HostMesh& m, bool upwind, const std::vector<scalar>& flux, const HostField<T>& h)
{
    auto w = linearWeights(m);
    std::vector<T> r;
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        if (f >= m.nInt()) r.push_back(h.value[f - m.nInt()]);
        else if (upwind) r.push_back(h.in[flux[f] >= 0 ? m.own[f] : m.nei[f]]);
        else r.push_back(h.in[m.own[f]] * w[f] + h.in[m.nei[f]] * (1 - w[f]));
    }
    return r;
}
template<typename T>
Sums<T> divergence(const HostMesh& m, bool upwind, const std::vector<scalar>& flux, const HostField<T>& h, const HostCoeff& k)
{
    auto x = faceValues(m, upwind, flux, h);
    for (size_t f = 0; f < x.size(); f++) x[f] = x[f] * flux[f];
    auto s = perVolume(m, faceSum(m, x), k);
    // what cancels in the interpolation
    double big = magnitude(h.in) + magnitude(h.value), most = magnitude(flux);
    for (size_t c = 0; c < m.nCells(); c++) s.scale[c] += COARSE * std::fabs(k[c]) / m.V[c] * big * most;
    return s;
}
template<typename T>
std::vector<T> normalGradient(const HostMesh& m, const HostField<T>& h)
{
    auto dc = nonOrthDeltaCoeffs(m);
    std::vector<T> r;
    for (size_t f = 0; f < m.nFaces(); f++)
        r.push_back(((f < m.nInt() ? h.in[m.nei[f]] : h.value[f - m.nInt()]) - h.in[m.own[f]]) * dc[f]);
    return r;
}
template<typename T>
Sums<T> laplacian(const HostMesh& m, const std::vector<scalar>& gamma, const HostField<T>& h, const HostCoeff& k)
{
    auto x = normalGradient(m, h);
    for (size_t f = 0; f < x.size(); f++) x[f] = x[f] * (gamma[f] * m.magSf(f));
    auto s = perVolume(m, faceSum(m, x), k);
    // differences of large numbers
    double big = magnitude(h.in) + magnitude(h.value), dc = magnitude(nonOrthDeltaCoeffs(m)), a = magnitude(m.mags()) * magnitude(gamma);
    for (size_t c = 0; c < m.nCells(); c++) s.scale[c] += COARSE * std::fabs(k[c]) / m.V[c] * big * dc * a;
    return s;
}

// the sum over all cells of volume times value is what crosses the boundary
template<typename T>
void conserves(const HostMesh& m, const std::vector<T>& perVolume, const std::vector<T>& faces, const std::string& what)
{
    Sums<T> total(1);
    T inside = NeoFOAM::zero<T>();
    double scale = 0;
    for (size_t f = m.nInt(); f < m.nFaces(); f++) total.add(0, faces[f]);
    for (const T& x : faces) total.scale[0] += norm(x);
    for (size_t c = 0; c < m.nCells(); c++)
    {
        inside = inside + perVolume[c] * m.V[c];
        scale += norm(perVolume[c]) * m.V[c];
    }
    PBT_CHECK(close(inside, total.v[0], total.scale[0] + scale, 1e-11), what, ": the cells gain ", str(inside), ", the boundary lets in ", str(total.v[0]));
}

inline Input tokens(const std::vector<std::string>& words)
{
    TokenList t;
    for (auto& w : words) t.insert(w);
    return t;
}

// ---- linear systems
template<typename T>
struct HostSystem
{
    std::vector<localIdx> row, col;
    std::vector<T> val, rhs;
};
template<typename T>
HostSystem<T> hostSystem(la::LinearSystem<T, localIdx>& ls)
{
    return {host(ls.matrix().rowPtrs()), host(ls.matrix().colIdxs()), host(ls.matrix().values()), host(ls.rhs())};
}
// scalar times scalar, and component by component
inline double times(double a, double b) { return a * b; }
inline Vector times(const Vector& a, const Vector& b) { return Vector(a[0] * b[0], a[1] * b[1], a[2] * b[2]); }
// A x - b
template<typename T>
Sums<T> residual(const HostSystem<T>& s, const std::vector<T>& x)
{
    Sums<T> r(s.rhs.size());
    for (size_t i = 0; i < s.rhs.size(); i++)
    {
        for (size_t k = s.row[i]; k < s.row[i + 1]; k++) r.add(i, times(s.val[k], x[s.col[k]]));
        r.add(i, s.rhs[i] * -1.0);
    }
    return r;
}
}
