// Small meshes and fields for the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/fields/field.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"

using namespace NeoFOAM;
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { failures++; std::printf("line %d: not so: %s\n", __LINE__, #c); } } while (0)
inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
inline bool near(const Vector& a, const Vector& b) { return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2]); }

template<typename T>
std::vector<T> host(const Field<T>& f)
{
    auto h = f.copyToHost();
    return std::vector<T>(h.data(), h.data() + h.size());
}

struct Geometry
{
    std::vector<scalar> V;
    std::vector<Vector> C, Sf, Cf; // internal faces first, then patch by patch
    std::vector<label> own, nei;
    std::vector<localIdx> offset {0};
    void cell(double v, Vector c) { V.push_back(v); C.push_back(c); }
    void face(label o, label n, Vector s, Vector c) { own.push_back(o); nei.push_back(n); Sf.push_back(s); Cf.push_back(c); }
    void boundary(label o, Vector s, Vector c) { own.push_back(o); Sf.push_back(s); Cf.push_back(c); }
    void patch() { offset.push_back(localIdx(own.size() - nei.size())); }
    UnstructuredMesh mesh(const Executor& exec) const
    {
        size_t ni = nei.size(), nf = own.size(), nb = nf - ni;
        std::vector<label> fc(own.begin() + long(ni), own.end());
        std::vector<Vector> cf(Cf.begin() + long(ni), Cf.end()), sf(Sf.begin() + long(ni), Sf.end()), cn, n, delta;
        std::vector<scalar> mags, mb, w(nb, 1.0), dc;
        for (auto& s : Sf) mags.push_back(mag(s));
        for (size_t b = 0; b < nb; b++)
        {
            cn.push_back(C[size_t(fc[b])]);
            mb.push_back(mag(sf[b]));
            n.push_back(sf[b] * (1 / mag(sf[b])));
            delta.push_back(cf[b] - cn[b]);
            dc.push_back(1 / mag(delta[b]));
        }
        BoundaryMesh bm(exec, labelField(exec, fc), vectorField(exec, cf), vectorField(exec, cn), vectorField(exec, sf), scalarField(exec, mb),
                        vectorField(exec, n), vectorField(exec, delta), scalarField(exec, w), scalarField(exec, dc), offset);
        return UnstructuredMesh(vectorField(exec, std::vector<Vector> {Vector(0, 0, 0)}), scalarField(exec, V), vectorField(exec, C),
                                vectorField(exec, Sf), vectorField(exec, Cf), scalarField(exec, mags), labelField(exec, own),
                                labelField(exec, nei), V.size(), ni, nb, offset.size() - 1, nf, bm);
    }
};

// cells 0 - 1 - 2 - ... of different lengths along x, a patch at either end
inline Geometry line(const std::vector<double>& h)
{
    Geometry g;
    double x = 0;
    std::vector<double> at {0};
    for (double l : h)
    {
        g.cell(l, Vector(x + l / 2, 0, 0));
        at.push_back(x += l);
    }
    for (size_t i = 0; i + 1 < h.size(); i++) g.face(label(i), label(i + 1), Vector(1, 0, 0), Vector(at[i + 1], 0, 0));
    g.boundary(0, Vector(-1, 0, 0), Vector(0, 0, 0));
    g.patch();
    g.boundary(label(h.size() - 1), Vector(1, 0, 0), Vector(x, 0, 0));
    g.patch();
    return g;
}
inline std::vector<Executor> executors() { return {SerialExecutor(), CPUExecutor(), GPUExecutor()}; }
