// Generated meshes.  The host keeps the geometry; build() hands it to the project's own mesh class.
#pragma once
#include "num.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"

namespace num
{
using NeoFOAM::BoundaryMesh;
using NeoFOAM::UnstructuredMesh;

struct HostMesh
{
    std::vector<Vector> points;
    std::vector<scalar> V;
    std::vector<Vector> C;
    std::vector<Vector> Sf, Cf; // all faces: internal ones first, then patch by patch
    std::vector<label> own, nei;
    std::vector<localIdx> offset {0}; // of the patches, counted from the first boundary face
    std::vector<scalar> bdc;          // inverse distances the boundary is given; 1 / |delta| if empty

    size_t nCells() const { return V.size(); }
    size_t nInt() const { return nei.size(); }
    size_t nFaces() const { return own.size(); }
    size_t nBnd() const { return nFaces() - nInt(); }
    size_t nPatches() const { return offset.size() - 1; }
    scalar magSf(size_t f) const { return std::sqrt(Sf[f][0] * Sf[f][0] + Sf[f][1] * Sf[f][1] + Sf[f][2] * Sf[f][2]); }
    Vector nf(size_t f) const { return Sf[f] * (1.0 / magSf(f)); }
    Vector delta(size_t b) const { return Cf[nInt() + b] - C[own[nInt() + b]]; }
    std::vector<label> faceCells() const { return std::vector<label>(own.begin() + long(nInt()), own.end()); }
    std::vector<scalar> mags() const
    {
        std::vector<scalar> m;
        for (size_t f = 0; f < nFaces(); f++) m.push_back(magSf(f));
        return m;
    }
};

inline double len(const Vector& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
inline double dot(const Vector& a, const Vector& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

inline UnstructuredMesh build(const Executor& exec, const HostMesh& m)
{
    size_t nb = m.nBnd(), ni = m.nInt();
    std::vector<Vector> cf, cn, sf, nf, delta;
    std::vector<scalar> mag, w(nb, 1.0), dc;
    for (size_t b = 0; b < nb; b++)
    {
        cf.push_back(m.Cf[ni + b]);
        cn.push_back(m.C[m.own[ni + b]]);
        sf.push_back(m.Sf[ni + b]);
        mag.push_back(m.magSf(ni + b));
        nf.push_back(m.nf(ni + b));
        delta.push_back(m.delta(b));
        dc.push_back(m.bdc.empty() ? 1.0 / len(delta.back()) : m.bdc[b]);
    }
    BoundaryMesh bm(
        exec, field(exec, m.faceCells()), field(exec, cf), field(exec, cn), field(exec, sf), field(exec, mag), field(exec, nf),
        field(exec, delta), field(exec, w), field(exec, dc), m.offset
    );
    return UnstructuredMesh(
        field(exec, m.points), field(exec, m.V), field(exec, m.C), field(exec, m.Sf), field(exec, m.Cf), field(exec, m.mags()),
        field(exec, m.own), field(exec, m.nei), m.nCells(), ni, nb, m.nPatches(), m.nFaces(), bm
    );
}

inline Vector random3(pbt::Gen& g, double mag)
{
    double x = (double(g.below(2001)) - 1000) / 1000 * mag, y = (double(g.below(2001)) - 1000) / 1000 * mag,
           z = (double(g.below(2001)) - 1000) / 1000 * mag;
    return Vector(x, y, z);
}

// cells connected at random, with geometry that is consistent face by face (an area vector has a positive component along the line
// between the centres) but need not close the cells; `pairs` at most one face between two cells
inline HostMesh graphMesh(pbt::Gen& g, size_t maxCells = 14, bool pairs = true)
{
    HostMesh m;
    size_t n = g.size(1, maxCells);
    for (size_t i = 0; i < n; i++)
    {
        m.V.push_back(g.positive());
        m.C.push_back(Vector(double(i) * 1.5, 0, 0) + random3(g, 0.4));
    }
    std::set<std::pair<size_t, size_t>> seen;
    std::vector<std::pair<size_t, size_t>> faces;
    if (n > 1)
    {
        size_t k = g.size(0, 2 * n + 2);
        for (size_t i = 0; i < k; i++)
        {
            size_t a = g.index(n), b = g.index(n);
            if (a == b) b = (a + 1) % n;
            if (a > b) std::swap(a, b);
            if (pairs && !seen.insert({a, b}).second) continue;
            faces.push_back({a, b});
        }
    }
    for (auto [a, b] : faces)
    {
        Vector d = m.C[b] - m.C[a];
        double t = g.positive(0.2, 0.8);
        Vector s = d * (1.0 / len(d)) + random3(g, 0.3);
        m.own.push_back(label(a));
        m.nei.push_back(label(b));
        m.Sf.push_back(s * g.positive(0.2, 3.0));
        m.Cf.push_back(m.C[a] + d * t + random3(g, 0.05));
    }
    size_t patches = g.size(0, 5);
    for (size_t p = 0; p < patches; p++)
    {
        size_t k = g.size(0, 4);
        for (size_t i = 0; i < k; i++)
        {
            size_t a = g.index(n);
            Vector d = random3(g, 1.0) + Vector(0, 2, 0);
            m.own.push_back(label(a));
            Vector s = d * (1.0 / len(d)) + random3(g, 0.2);
            m.Sf.push_back(s * g.positive(0.2, 3.0));
            m.Cf.push_back(m.C[a] + d * g.positive(0.2, 1.0));
        }
        m.offset.push_back(m.offset.back() + localIdx(k));
    }
    m.points.push_back(Vector(0, 0, 0));
    g.note("mesh of ", n, " cells, ", m.nInt(), " internal faces, ", m.nPatches(), " patches with ", m.nBnd(), " faces");
    return m;
}

// a block of bricks with random spacings; cells, faces and patches numbered at random; closed cells, exact centres
inline HostMesh boxMesh(pbt::Gen& g, size_t most = 4)
{
    size_t n[3];
    std::vector<scalar> x[3];
    for (size_t k = 0; k < 3; k++)
    {
        n[k] = k == 0 ? g.size(1, most + 2) : g.size(1, most - 1);
        double at = double(g.range(-2, 2));
        x[k].push_back(at);
        for (size_t i = 0; i < n[k]; i++) x[k].push_back(at += g.positive(0.25, 2.0));
    }
    size_t N = n[0] * n[1] * n[2];
    bool shuffle = g.boolean();
    std::vector<size_t> id(N);
    for (size_t i = 0; i < N; i++) id[i] = i;
    if (shuffle) id = g.permutation(N);
    auto cell = [&](size_t i, size_t j, size_t k) { return id[(k * n[1] + j) * n[0] + i]; };
    HostMesh m;
    m.V.resize(N);
    m.C.resize(N);
    struct Face
    {
        size_t own;
        long nei;
        Vector s, c;
        size_t side;
    };
    std::vector<Face> in, out;
    for (size_t k = 0; k < n[2]; k++)
        for (size_t j = 0; j < n[1]; j++)
            for (size_t i = 0; i < n[0]; i++)
            {
                size_t at[3] = {i, j, k}, me = cell(i, j, k);
                double lo[3], hi[3];
                for (size_t d = 0; d < 3; d++) lo[d] = x[d][at[d]], hi[d] = x[d][at[d] + 1];
                m.V[me] = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
                Vector c((lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2);
                m.C[me] = c;
                for (size_t d = 0; d < 3; d++)
                {
                    double A = (hi[(d + 1) % 3] - lo[(d + 1) % 3]) * (hi[(d + 2) % 3] - lo[(d + 2) % 3]);
                    Vector s(0, 0, 0), fc = c;
                    s[d] = A;
                    fc[d] = hi[d];
                    if (at[d] + 1 < n[d])
                    {
                        size_t nb = cell(i + (d == 0), j + (d == 1), k + (d == 2));
                        if (me < nb) in.push_back({me, long(nb), s, fc, 0});
                        else in.push_back({nb, long(me), s * -1.0, fc, 0});
                    }
                    else out.push_back({me, -1, s, fc, 2 * d + 1});
                    if (at[d] == 0)
                    {
                        fc[d] = lo[d];
                        out.push_back({me, -1, s * -1.0, fc, 2 * d});
                    }
                }
            }
    if (shuffle)
    {
        auto p = g.permutation(in.size());
        std::vector<Face> q;
        for (size_t i : p) q.push_back(in[i]);
        in = q;
    }
    else
        std::stable_sort(in.begin(), in.end(), [](const Face& a, const Face& b) { return a.own < b.own || (a.own == b.own && a.nei < b.nei); });
    // sides go to patches; a patch may be empty
    size_t patches = 1 + g.index(7);
    size_t to[6];
    for (size_t& t : to) t = g.index(patches);
    for (auto& f : in)
    {
        m.own.push_back(label(f.own));
        m.nei.push_back(label(f.nei));
        m.Sf.push_back(f.s);
        m.Cf.push_back(f.c);
    }
    for (size_t p = 0; p < patches; p++)
    {
        for (auto& f : out)
            if (to[f.side] == p)
            {
                m.own.push_back(label(f.own));
                m.Sf.push_back(f.s);
                m.Cf.push_back(f.c);
            }
        m.offset.push_back(localIdx(m.own.size() - in.size()));
    }
    for (double a : x[0])
        for (double b : x[1])
            for (double c : x[2]) m.points.push_back(Vector(a, b, c));
    g.note("box of ", n[0], "x", n[1], "x", n[2], " cells", shuffle ? " renumbered" : "", ", ", patches, " patches");
    return m;
}

inline HostMesh anyMesh(pbt::Gen& g, bool pairs = true) { return g.boolean() ? boxMesh(g, 3) : graphMesh(g, 14, pairs); }

// the geometry of a mesh of the project's own
inline HostMesh hostMesh(const UnstructuredMesh& u)
{
    HostMesh m;
    m.points = host(u.points());
    m.V = host(u.cellVolumes());
    m.C = host(u.cellCentres());
    m.Sf = host(u.faceAreas());
    m.Cf = host(u.faceCentres());
    m.own = host(u.faceOwner());
    m.nei = host(u.faceNeighbour());
    m.offset = u.boundaryMesh().offset();
    return m;
}
}
