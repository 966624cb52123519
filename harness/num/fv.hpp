// Finite-volume fields with generated boundary conditions, and their references on the host.
#pragma once
#include "mesh.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"

namespace num
{
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;
using NeoFOAM::Dictionary;
using NeoFOAM::Input;
using NeoFOAM::TokenList;
using fvcc::SurfaceBoundary;
using fvcc::SurfaceField;
using fvcc::VolumeBoundary;
using fvcc::VolumeField;

// ---- the geometry the schemes are made of
inline double cellDistance(const HostMesh& m, size_t f)
{
    return f < m.nInt() ? len(m.C[m.nei[f]] - m.C[m.own[f]]) : len(m.delta(f - m.nInt()));
}
inline std::vector<scalar> linearWeights(const HostMesh& m)
{
    std::vector<scalar> w(m.nFaces(), 1.0);
    for (size_t f = 0; f < m.nInt(); f++)
    {
        double o = std::fabs(dot(m.Sf[f], m.Cf[f] - m.C[m.own[f]])), n = std::fabs(dot(m.Sf[f], m.C[m.nei[f]] - m.Cf[f]));
        w[f] = o + n > 0 ? n / (o + n) : 0.5;
    }
    return w;
}
inline std::vector<scalar> deltaCoeffs(const HostMesh& m)
{
    std::vector<scalar> w;
    for (size_t f = 0; f < m.nFaces(); f++) w.push_back(1.0 / cellDistance(m, f));
    return w;
}
inline std::vector<scalar> nonOrthDeltaCoeffs(const HostMesh& m)
{
    std::vector<scalar> w;
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        Vector d = f < m.nInt() ? m.C[m.nei[f]] - m.C[m.own[f]] : m.delta(f - m.nInt());
        w.push_back(1.0 / std::max(dot(m.nf(f), d), 0.05 * len(d)));
    }
    return w;
}

// ---- boundary conditions
template<typename T>
struct Condition
{
    std::string type;
    T value;
};
template<typename T>
Dictionary dictionary(const Condition<T>& c)
{
    Dictionary d;
    d.insert("type", c.type);
    if (c.type == "fixedValue") d.insert("fixedValue", c.value);
    if (c.type == "fixedGradient") d.insert("fixedGradient", c.value);
    return d;
}
template<typename T>
std::vector<Condition<T>> conditions(pbt::Gen& g, size_t patches, const std::vector<std::string>& types)
{
    std::vector<Condition<T>> c;
    std::string s;
    for (size_t p = 0; p < patches; p++)
    {
        c.push_back({g.pick(types), value<T>(g)});
        s += " " + c.back().type + " " + str(c.back().value);
    }
    g.note("conditions:", s);
    return c;
}
inline const std::vector<std::string> VOLUME_TYPES {"fixedValue", "fixedGradient", "extrapolated", "calculated", "empty"};
inline const std::vector<std::string> SURFACE_TYPES {"fixedValue", "calculated", "empty"};
template<typename Boundary, typename T>
std::vector<Boundary> boundaries(const UnstructuredMesh& u, const std::vector<Condition<T>>& c)
{
    std::vector<Boundary> b;
    for (size_t p = 0; p < c.size(); p++) b.push_back(Boundary(u, dictionary(c[p]), p));
    return b;
}

// what a volume field holds, on the host
template<typename T>
struct HostField
{
    std::vector<T> in, value, refValue, refGrad;
    std::vector<scalar> fraction;
};
template<typename T>
HostField<T> content(pbt::Gen& g, size_t nIn, size_t nBnd)
{
    HostField<T> h;
    h.in = values<T>(g, nIn);
    h.value = values<T>(g, nBnd);
    h.refValue = values<T>(g, nBnd);
    h.refGrad = values<T>(g, nBnd);
    h.fraction = values<scalar>(g, nBnd);
    return h;
}
template<typename F, typename T>
void write(F& f, const HostField<T>& h)
{
    put(f.internalField(), h.in);
    put(f.boundaryField().value(), h.value);
    put(f.boundaryField().refValue(), h.refValue);
    put(f.boundaryField().refGrad(), h.refGrad);
    put(f.boundaryField().valueFraction(), h.fraction);
}
template<typename T, typename F>
HostField<T> read(const F& f)
{
    return {host(f.internalField()), host(f.boundaryField().value()), host(f.boundaryField().refValue()), host(f.boundaryField().refGrad()),
            host(f.boundaryField().valueFraction())};
}
template<typename F, typename T>
void unchanged(const F& f, const HostField<T>& h, const std::string& what)
{
    exact(host(f.internalField()), h.in, what + ": internal");
    exact(host(f.boundaryField().value()), h.value, what + ": boundary value");
    exact(host(f.boundaryField().refValue()), h.refValue, what + ": reference value");
    exact(host(f.boundaryField().refGrad()), h.refGrad, what + ": reference gradient");
    exact(host(f.boundaryField().valueFraction()), h.fraction, what + ": value fraction");
}

// the condition's face values, reference values and so on, as the boundary conditions promise them
template<typename T>
void correct(HostField<T>& h, const HostMesh& m, const std::vector<Condition<T>>& c)
{
    for (size_t p = 0; p < c.size(); p++)
        for (size_t b = m.offset[p]; b < m.offset[p + 1]; b++)
        {
            const T cell = h.in[m.own[m.nInt() + b]];
            if (c[p].type == "fixedValue")
            {
                h.value[b] = h.refValue[b] = c[p].value;
                h.fraction[b] = 1;
            }
            else if (c[p].type == "fixedGradient")
            {
                h.value[b] = cell + c[p].value * (m.bdc.empty() ? len(m.delta(b)) : 1.0 / m.bdc[b]);
                h.refGrad[b] = c[p].value;
                h.refValue[b] = NeoFOAM::zero<T>();
                h.fraction[b] = 0;
            }
            else if (c[p].type == "extrapolated")
            {
                h.value[b] = h.refValue[b] = cell;
                h.refGrad[b] = NeoFOAM::zero<T>();
                h.fraction[b] = 1;
            }
        }
}

// a volume field with the given contents, its boundary as `conditions` leave it
template<typename T>
VolumeField<T> volumeField(const Executor& exec, const std::string& name, const UnstructuredMesh& u, const HostField<T>& h,
    const std::vector<Condition<T>>& c)
{
    VolumeField<T> f(exec, name, u, boundaries<VolumeBoundary<T>, T>(u, c));
    write(f, h);
    return f;
}
template<typename T>
SurfaceField<T> surfaceField(const Executor& exec, const std::string& name, const UnstructuredMesh& u, const std::vector<T>& v)
{
    SurfaceField<T> f(exec, name, u, fvcc::createCalculatedBCs<SurfaceBoundary<T>>(u));
    put(f.internalField(), v);
    return f;
}
}
