// C18: the face stencil of the cells and the sparsity pattern of a mesh.
#include "mesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
using namespace num;
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

static HostMesh mesh(pbt::Gen& g, bool pairs)
{
    if (g.chance(1, 12)) // one cell with many neighbours
    {
        HostMesh m;
        size_t n = g.size(2, 200);
        size_t hub = g.index(n);
        for (size_t i = 0; i < n; i++)
        {
            m.V.push_back(1);
            m.C.push_back(Vector(double(i), 0, 0));
        }
        for (size_t i : g.permutation(n))
            if (i != hub)
            {
                m.own.push_back(label(std::min(i, hub)));
                m.nei.push_back(label(std::max(i, hub)));
                m.Sf.push_back(Vector(1, 0, 0));
                m.Cf.push_back(Vector(0, 0, 0));
            }
        m.points.push_back(Vector(0, 0, 0));
        g.note("cell ", hub, " of ", n, " has all others as neighbours");
        return m;
    }
    return anyMesh(g, pairs);
}

PBT(stencil_is_the_faces_of_each_cell, 5000, 150000, "internal and boundary faces, a cell with several faces")
{
    auto exec = executor(g);
    HostMesh m = mesh(g, g.boolean());
    auto u = build(exec, m);
    std::vector<std::vector<localIdx>> want(m.nCells());
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        want[m.own[f]].push_back(localIdx(f));
        if (f < m.nInt()) want[m.nei[f]].push_back(localIdx(f));
    }
    size_t most = 0;
    for (auto& w : want) most = std::max(most, w.size());
    if (m.nInt() && m.nBnd() && most > 1) g.nontrivial();
    fvcc::CellToFaceStencil cts(u);
    for (int again = 0; again < 2; again++)
    {
        auto st = cts.computeStencil();
        PBT_CHECK(st.exec() == exec && st.numSegments() == m.nCells(), st.numSegments(), " segments");
        PBT_CHECK(st.size() == 2 * m.nInt() + m.nBnd(), st.size(), " entries");
        auto v = st.view();
        auto all = everywhere();
        for (size_t c = 0; c < m.nCells(); c++)
        {
            auto s = v.span(c);
            std::vector<localIdx> got(s.begin(), s.end());
            std::sort(got.begin(), got.end());
            std::string text;
            for (auto x : got) text += std::to_string(x) + " ";
            PBT_CHECK(got == want[c], "faces of cell ", c, " are ", text, "(", want[c].size(), " expected)");
        }
    }
}

static void patternOf(const HostMesh& m, const fvcc::SparsityPattern& sp, const Executor& exec)
{
    size_t n = m.nCells(), ni = m.nInt();
    PBT_CHECK(sp.rows() == n && sp.nnz() == n + 2 * ni, "rows ", sp.rows(), ", entries ", sp.nnz());
    PBT_CHECK(sp.colIdxs().exec() == exec && sp.rowPtrs().exec() == exec && sp.diagOffset().exec() == exec && sp.ownerOffset().exec() == exec
                  && sp.neighbourOffset().exec() == exec, "executor");
    auto row = host(sp.rowPtrs()), col = host(sp.colIdxs());
    auto own = host(sp.ownerOffset()), nei = host(sp.neighbourOffset()), diag = host(sp.diagOffset());
    PBT_CHECK(row.size() == n + 1 && own.size() == ni && nei.size() == ni && diag.size() == n, "sizes");
    std::vector<std::multiset<localIdx>> want(n);
    for (size_t c = 0; c < n; c++) want[c].insert(localIdx(c));
    for (size_t f = 0; f < ni; f++)
    {
        want[m.own[f]].insert(localIdx(m.nei[f]));
        want[m.nei[f]].insert(localIdx(m.own[f]));
    }
    PBT_CHECK(row[0] == 0 && row[n] == col.size(), "row pointers run from ", row[0], " to ", row[n]);
    for (size_t c = 0; c < n; c++)
    {
        PBT_CHECK(row[c] < row[c + 1] && row[c + 1] <= col.size(), "row ", c, " from ", row[c], " to ", row[c + 1]);
        std::multiset<localIdx> got(col.begin() + row[c], col.begin() + row[c + 1]);
        PBT_CHECK(got == want[c], "columns of row ", c);
    }
    // every position of the matrix is reached through exactly one offset
    std::vector<int> hit(col.size(), 0);
    auto at = [&](size_t r, size_t o, label c, const char* what, size_t f)
    {
        PBT_CHECK(row[r] + o < row[r + 1], what, " of ", f, " is outside row ", r);
        PBT_CHECK(label(col[row[r] + o]) == c, what, " of ", f, " finds column ", col[row[r] + o], ", expected ", c);
        hit[row[r] + o]++;
    };
    for (size_t f = 0; f < ni; f++)
    {
        at(size_t(m.own[f]), own[f], m.nei[f], "ownerOffset", f);
        at(size_t(m.nei[f]), nei[f], m.own[f], "neighbourOffset", f);
    }
    for (size_t c = 0; c < n; c++) at(c, diag[c], label(c), "diagOffset", c);
    for (size_t i = 0; i < hit.size(); i++) PBT_CHECK(hit[i] == 1, "position ", i, " is reached ", hit[i], " times");
}

PBT(pattern_is_the_adjacency, 5000, 150000, "a cell with a lower and a higher neighbour")
{
    auto exec = executor(g);
    HostMesh m = mesh(g, !g.chance(1, 4));
    for (size_t f = 0; f < m.nInt(); f++)
        for (size_t h = 0; h < m.nInt(); h++)
            if (m.own[f] == m.nei[h]) g.nontrivial();
    auto u = build(exec, m);
    fvcc::SparsityPattern sp(u);
    patternOf(m, sp, exec);
    PBT_CHECK(&sp.mesh() == &u, "mesh()");
    if (g.boolean())
    {
        sp.update();
        patternOf(m, sp, exec);
    }
}

PBT(pattern_is_made_once_per_mesh, 1500, 30000, "two meshes of different sizes")
{
    auto exec = executor(g);
    HostMesh a = mesh(g, true), b = mesh(g, true);
    auto ua = build(exec, a), ub = build(exec, b);
    if (a.nCells() != b.nCells()) g.nontrivial();
    auto pa = fvcc::SparsityPattern::readOrCreate(ua);
    auto pb = fvcc::SparsityPattern::readOrCreate(ub);
    PBT_CHECK(pa && pb && pa != pb, "two meshes share a pattern");
    PBT_CHECK(fvcc::SparsityPattern::readOrCreate(ua) == pa && fvcc::SparsityPattern::readOrCreate(ub) == pb, "the pattern was made again");
    PBT_CHECK(&pa->mesh() == &ua && &pb->mesh() == &ub, "mesh()");
    patternOf(a, *pa, exec);
    patternOf(b, *pb, exec);
}

// offsets are kept in 8 bits
PBT_KNOWN(offsets_of_a_cell_with_256_neighbours_wrap)
{
    what = "the offsets into a row are uint8_t: in a mesh where cell 256 has the 256 other cells as neighbours, its diagonal is looked for at the place of cell 0";
    HostMesh m;
    const size_t n = 257;
    for (size_t i = 0; i < n; i++)
    {
        m.V.push_back(1);
        m.C.push_back(Vector(double(i), 0, 0));
    }
    for (size_t i = 0; i + 1 < n; i++)
    {
        m.own.push_back(label(i));
        m.nei.push_back(label(n - 1));
        m.Sf.push_back(Vector(1, 0, 0));
        m.Cf.push_back(Vector(0, 0, 0));
    }
    m.points.push_back(Vector(0, 0, 0));
    Executor exec = NeoFOAM::SerialExecutor {};
    auto u = build(exec, m);
    fvcc::SparsityPattern sp(u);
    auto row = host(sp.rowPtrs()), col = host(sp.colIdxs());
    auto diag = host(sp.diagOffset());
    return col[row[n - 1] + diag[n - 1]] != n - 1;
}
