// C17: the meshes the project makes are valid, and a mesh gives back what it was given.
#include "mesh.hpp"
using namespace num;

// what every mesh has to satisfy
static void valid(const UnstructuredMesh& u, const Executor& exec, double tol = 1e-12)
{
    const BoundaryMesh& b = u.boundaryMesh();
    PBT_CHECK(u.exec() == exec, "executor of the mesh");
    PBT_CHECK(u.points().exec() == exec && u.cellVolumes().exec() == exec && u.cellCentres().exec() == exec && u.faceAreas().exec() == exec
                  && u.faceCentres().exec() == exec && u.magFaceAreas().exec() == exec && u.faceOwner().exec() == exec
                  && u.faceNeighbour().exec() == exec, "executor of a field of the mesh");
    PBT_CHECK(b.faceCells().exec() == exec && b.cf().exec() == exec && b.cn().exec() == exec && b.sf().exec() == exec && b.magSf().exec() == exec
                  && b.nf().exec() == exec && b.delta().exec() == exec && b.weights().exec() == exec && b.deltaCoeffs().exec() == exec,
              "executor of a field of the boundary");
    size_t nc = u.nCells(), nf = u.nFaces(), ni = u.nInternalFaces(), nb = u.nBoundaryFaces();
    PBT_CHECK(nf == ni + nb, nf, " faces, ", ni, " internal, ", nb, " on the boundary");
    PBT_CHECK(u.cellVolumes().size() == nc && u.cellCentres().size() == nc, "cell fields");
    PBT_CHECK(u.faceAreas().size() == nf && u.faceCentres().size() == nf && u.magFaceAreas().size() == nf && u.faceOwner().size() == nf
                  && u.faceNeighbour().size() == ni, "face fields");
    PBT_CHECK(b.faceCells().size() == nb && b.cf().size() == nb && b.cn().size() == nb && b.sf().size() == nb && b.magSf().size() == nb
                  && b.nf().size() == nb && b.delta().size() == nb && b.weights().size() == nb && b.deltaCoeffs().size() == nb, "boundary fields");
    auto off = b.offset();
    PBT_CHECK(off.size() == u.nBoundaries() + 1 && off.front() == 0 && off.back() == nb && std::is_sorted(off.begin(), off.end()), "boundary offsets");
    HostMesh m = hostMesh(u);
    auto mag = host(u.magFaceAreas());
    std::vector<Vector> sum(nc, Vector(0, 0, 0));
    std::vector<double> area(nc, 0);
    for (size_t f = 0; f < nf; f++)
    {
        PBT_CHECK(m.own[f] >= 0 && size_t(m.own[f]) < nc, "owner of face ", f, " is ", m.own[f]);
        PBT_CHECK(std::fabs(mag[f] - len(m.Sf[f])) <= tol * mag[f] && mag[f] > 0, "area of face ", f);
        size_t o = size_t(m.own[f]);
        sum[o] += m.Sf[f];
        area[o] += mag[f];
        if (f < ni)
        {
            PBT_CHECK(m.nei[f] > m.own[f] && size_t(m.nei[f]) < nc, "neighbour of face ", f, " is ", m.nei[f]);
            size_t n = size_t(m.nei[f]);
            sum[n] -= m.Sf[f];
            area[n] += mag[f];
            PBT_CHECK(dot(m.Sf[f], m.C[n] - m.C[o]) > 0, "face ", f, " points from neighbour to owner");
            PBT_CHECK(dot(m.Sf[f], m.Cf[f] - m.C[o]) > 0 && dot(m.Sf[f], m.C[n] - m.Cf[f]) > 0, "face ", f, " is not between its cells");
        }
        else PBT_CHECK(dot(m.Sf[f], m.Cf[f] - m.C[o]) > 0, "boundary face ", f, " points inwards");
    }
    double total = 0;
    for (size_t c = 0; c < nc; c++)
    {
        PBT_CHECK(len(sum[c]) <= tol * area[c], "cell ", c, " is not closed: ", str(sum[c]));
        PBT_CHECK(m.V[c] > 0, "volume of cell ", c);
        total += m.V[c];
    }
    PBT_CHECK(std::fabs(total - 1) <= tolerance(1e-9), "the volumes sum to ", total);
    // volume from the divergence theorem: sum Sf . Cf over the faces of a cell is d V, d the number of dimensions with faces
    size_t dims = 0;
    for (size_t k = 0; k < 3; k++)
    {
        bool any = false;
        for (size_t f = 0; f < nf; f++) any = any || m.Sf[f][k] != 0;
        dims += any;
    }
    std::vector<double> v(nc, 0);
    for (size_t f = 0; f < nf; f++)
    {
        v[m.own[f]] += dot(m.Sf[f], m.Cf[f]);
        if (f < ni) v[m.nei[f]] -= dot(m.Sf[f], m.Cf[f]);
    }
    for (size_t c = 0; c < nc; c++)
        PBT_CHECK(std::fabs(v[c] - double(dims) * m.V[c]) <= tolerance(1e-9), "volume of cell ", c, " is ", m.V[c], ", its faces enclose ", v[c] / double(dims));
    // the boundary mesh says the same as the faces
    auto fc = host(b.faceCells());
    auto cf = host(b.cf()), cn = host(b.cn()), sf = host(b.sf()), n = host(b.nf()), d = host(b.delta());
    auto ms = host(b.magSf()), w = host(b.weights()), dc = host(b.deltaCoeffs());
    for (size_t i = 0; i < nb; i++)
    {
        size_t f = ni + i;
        PBT_CHECK(fc[i] == m.own[f], "cell of boundary face ", i, " is ", fc[i], ", the owner is ", m.own[f]);
        PBT_CHECK(close(cf[i], m.Cf[f], 1, tol), "centre of boundary face ", i);
        PBT_CHECK(close(sf[i], m.Sf[f], 1, tol), "area of boundary face ", i);
        PBT_CHECK(close(ms[i], mag[f], 1, tol), "magnitude of the area of boundary face ", i);
        PBT_CHECK(close(n[i], m.Sf[f] * (1 / mag[f]), 1, tol), "normal of boundary face ", i);
        PBT_CHECK(close(cn[i], m.C[fc[i]], 1, tol), "centre of the cell at boundary face ", i, " is ", str(cn[i]), ", expected ", str(m.C[fc[i]]));
        PBT_CHECK(close(d[i], m.Cf[f] - m.C[fc[i]], 1, tol), "delta of boundary face ", i, " is ", str(d[i]));
        PBT_CHECK(close(dc[i], 1 / len(d[i]), 1 / len(d[i]), tol), "delta coefficient of boundary face ", i);
        PBT_CHECK(w[i] == 1, "weight of boundary face ", i);
    }
}

// the views of one patch
static void slices(const UnstructuredMesh& u)
{
    const BoundaryMesh& b = u.boundaryMesh();
    auto off = b.offset();
    auto slice = [&](size_t p, const auto& view, const auto& whole, const char* what)
    {
        PBT_CHECK(view.size() == off[p + 1] - off[p] && view.data() == whole.data() + off[p], what, " of patch ", p, " is not faces ", off[p], " to ", off[p + 1]);
    };
    for (size_t p = 0; p + 1 < off.size(); p++)
    {
        auto i = localIdx(p);
        slice(p, b.faceCells(i), b.faceCells(), "faceCells");
        slice(p, b.cf(i), b.cf(), "cf");
        slice(p, b.cn(i), b.cn(), "cn");
        slice(p, b.sf(i), b.sf(), "sf");
        slice(p, b.magSf(i), b.magSf(), "magSf");
        slice(p, b.nf(i), b.nf(), "nf");
        slice(p, b.delta(i), b.delta(), "delta");
        slice(p, b.weights(i), b.weights(), "weights");
        slice(p, b.deltaCoeffs(i), b.deltaCoeffs(), "deltaCoeffs");
    }
}

PBT(uniform_mesh, 2000, 40000, "more than two cells")
{
    auto exec = executor(g);
    size_t n = g.size(1, g.chance(1, 20) ? 3000 : 120);
    g.note(n, " cells");
    if (n > 2) g.nontrivial();
    auto u = NeoFOAM::create1DUniformMesh(exec, n);
    PBT_CHECK(u.nCells() == n && u.nInternalFaces() == n - 1 && u.nBoundaryFaces() == 2 && u.nBoundaries() == 2, "sizes");
    valid(u, exec, 1e-9);
    slices(u);
    auto m = hostMesh(u);
    double h = 1.0 / double(n);
    for (size_t c = 0; c < n; c++)
    {
        PBT_CHECK(close(m.V[c], h, h), "volume of cell ", c);
        PBT_CHECK(close(m.C[c], Vector((double(c) + 0.5) * h, 0, 0), 1), "centre of cell ", c);
    }
    for (size_t f = 0; f + 1 < n; f++)
    {
        PBT_CHECK(m.own[f] == label(f) && m.nei[f] == label(f) + 1, "cells at face ", f);
        PBT_CHECK(close(m.Cf[f], Vector(double(f + 1) * h, 0, 0), 1), "centre of face ", f);
    }
    PBT_CHECK(m.own[n - 1] == 0 && m.own[n] == label(n) - 1, "cells at the ends");
    PBT_CHECK(close(m.Cf[n - 1], Vector(0, 0, 0), 1) && close(m.Cf[n], Vector(1, 0, 0), 1), "ends");
    PBT_CHECK(m.points.size() == n + 1, "points");
}

PBT(single_cell_mesh, 60, 60, "every case")
{
    auto exec = executor(g);
    g.nontrivial();
    auto u = NeoFOAM::createSingleCellMesh(exec);
    PBT_CHECK(u.nCells() == 1 && u.nInternalFaces() == 0 && u.nBoundaryFaces() == 4 && u.nBoundaries() == 4 && u.points().size() == 4, "sizes");
    valid(u, exec);
    slices(u);
}

// what was given is what is there, also in a copy
static void agree(const UnstructuredMesh& u, const HostMesh& m, const std::string& who)
{
    exact(host(u.points()), m.points, who + "points");
    exact(host(u.cellVolumes()), m.V, who + "volumes");
    exact(host(u.cellCentres()), m.C, who + "centres");
    exact(host(u.faceAreas()), m.Sf, who + "areas");
    exact(host(u.faceCentres()), m.Cf, who + "face centres");
    exact(host(u.magFaceAreas()), m.mags(), who + "area magnitudes");
    PBT_CHECK(host(u.faceOwner()) == m.own && host(u.faceNeighbour()) == m.nei, who, "owner, neighbour");
    PBT_CHECK(u.nCells() == m.nCells() && u.nInternalFaces() == m.nInt() && u.nBoundaryFaces() == m.nBnd() && u.nBoundaries() == m.nPatches()
                  && u.nFaces() == m.nFaces(), who, "sizes");
    const BoundaryMesh& b = u.boundaryMesh();
    PBT_CHECK(host(b.faceCells()) == m.faceCells() && b.offset() == m.offset, who, "boundary cells, offsets");
    std::vector<Vector> cf, cn, sf, nf, d;
    std::vector<scalar> mag, dc;
    for (size_t i = 0; i < m.nBnd(); i++)
    {
        size_t f = m.nInt() + i;
        cf.push_back(m.Cf[f]);
        cn.push_back(m.C[m.own[f]]);
        sf.push_back(m.Sf[f]);
        nf.push_back(m.nf(f));
        d.push_back(m.delta(i));
        mag.push_back(m.magSf(f));
        dc.push_back(1.0 / len(d.back()));
    }
    exact(host(b.cf()), cf, who + "boundary cf");
    exact(host(b.cn()), cn, who + "boundary cn");
    exact(host(b.sf()), sf, who + "boundary sf");
    exact(host(b.nf()), nf, who + "boundary nf");
    exact(host(b.delta()), d, who + "boundary delta");
    exact(host(b.magSf()), mag, who + "boundary magSf");
    exact(host(b.deltaCoeffs()), dc, who + "boundary deltaCoeffs");
    exact(host(b.weights()), std::vector<scalar>(m.nBnd(), 1.0), who + "boundary weights");
    slices(u);
}
PBT(mesh_keeps_what_it_was_given, 3000, 60000, "internal and boundary faces, several patches")
{
    balanced([&] {
        auto exec = executor(g);
        HostMesh m = anyMesh(g);
        if (m.nInt() && m.nBnd() && m.nPatches() > 1) g.nontrivial();
        UnstructuredMesh u = build(exec, m);
        agree(u, m, "");
        UnstructuredMesh copy(u);
        agree(copy, m, "copy: ");
        PBT_CHECK(copy.cellVolumes().data() != u.cellVolumes().data(), "the copy shares memory");
        UnstructuredMesh moved(std::move(u));
        agree(moved, m, "moved: ");
        // each mesh has a stencil database of its own
        copy.stencilDB().insert(std::string("x"), 1);
        PBT_CHECK(copy.stencilDB().contains("x") && !moved.stencilDB().contains("x"), "stencil databases are shared");
    });
}
