// C19: sparse matrices and linear systems.
#include "mesh.hpp"
#include "NeoFOAM/linearAlgebra/CSRMatrix.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "../core/forked.hpp"
using namespace num;
namespace la = NeoFOAM::la;
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

template<typename T, typename I>
struct Host
{
    std::vector<T> val;
    std::vector<I> col, row {0};
    size_t n() const { return row.size() - 1; }
};

// rows with distinct columns, in any order, possibly empty
template<typename T, typename I>
static Host<T, I> matrix(pbt::Gen& g, size_t most = 10)
{
    Host<T, I> h;
    size_t n = g.size(1, most);
    bool sorted = g.boolean();
    for (size_t i = 0; i < n; i++)
    {
        auto p = g.permutation(n);
        size_t k = g.chance(1, 8) ? 0 : g.size(1, std::min<size_t>(n, 6));
        p.resize(std::min(k, p.size()));
        if (sorted) std::sort(p.begin(), p.end());
        for (size_t c : p)
        {
            h.col.push_back(I(c));
            h.val.push_back(value<T>(g));
        }
        h.row.push_back(I(h.col.size()));
    }
    g.note(n, " rows, ", h.val.size(), " entries, columns ", sorted ? "ascending" : "in any order");
    return h;
}
template<typename T, typename I>
static la::CSRMatrix<T, I> make(const Executor& exec, const Host<T, I>& h)
{
    return la::CSRMatrix<T, I>(field(exec, h.val), field(exec, h.col), field(exec, h.row));
}
template<typename T, typename I>
static void agree(const la::CSRMatrix<T, I>& m, const Host<T, I>& h, const Executor& exec, const std::string& who)
{
    PBT_CHECK(m.exec() == exec && m.values().exec() == exec && m.colIdxs().exec() == exec && m.rowPtrs().exec() == exec, who, ": executor is ",
              name(m.exec()), ", expected ", name(exec));
    PBT_CHECK(size_t(m.nRows()) == h.n() && size_t(m.nNonZeros()) == h.val.size(), who, ": size");
    exact(host(m.values()), h.val, who + ": values");
    PBT_CHECK(host(m.colIdxs()) == h.col && host(m.rowPtrs()) == h.row, who, ": columns or rows");
}

template<typename T, typename I>
static void entries(pbt::Gen& g)
{
    auto exec = executor(g);
    auto h = matrix<T, I>(g);
    auto m = make(exec, h);
    agree(m, h, exec, "matrix");
    const auto& cm = m;
    for (size_t i = 0; i < h.n(); i++)
        if (h.row[i + 1] > h.row[i] + 2) g.nontrivial();
    auto v = m.view();
    auto cv = cm.view();
    auto all = everywhere();
    for (size_t i = 0; i < h.n(); i++)
        for (size_t k = h.row[i]; k < h.row[i + 1]; k++)
        {
            PBT_CHECK(&v.entry(I(i), h.col[k]) == m.values().data() + k, "entry (", i, ", ", h.col[k], ") is not position ", k);
            PBT_CHECK(&cv.entry(I(i), h.col[k]) == m.values().data() + k, "const entry (", i, ", ", h.col[k], ")");
            PBT_CHECK(&v.entry(I(k)) == m.values().data() + k && &cv.entry(I(k)) == m.values().data() + k, "entry ", k);
        }
    if (!h.val.empty())
    {
        size_t k = g.index(h.val.size()), i = 0;
        while (h.row[i + 1] <= k) i++;
        T x = value<T>(g);
        if (g.boolean()) v.entry(I(i), h.col[k]) = x;
        else v.entry(I(k)) = x;
        h.val[k] = x;
        agree(m, h, exec, "after a write");
    }
}
PBT(entries_are_found, 5000, 150000, "a row of at least three entries")
{
    switch (g.index(3))
    {
    case 0: entries<scalar, localIdx>(g); break;
    case 1: entries<Vector, localIdx>(g); break;
    default: entries<scalar, int>(g);
    }
}

PBT(absent_entry_is_fatal, 200, 5000, "a row with other entries")
{
    auto exec = executor(g);
    auto h = matrix<scalar, localIdx>(g, 6);
    size_t i = g.index(h.n());
    std::vector<localIdx> absent;
    for (size_t c = 0; c < h.n(); c++)
        if (std::find(h.col.begin() + h.row[i], h.col.begin() + h.row[i + 1], localIdx(c)) == h.col.begin() + h.row[i + 1]) absent.push_back(localIdx(c));
    absent.push_back(localIdx(h.n()));
    auto j = g.pick(absent);
    if (h.row[i + 1] > h.row[i]) g.nontrivial();
    auto m = make(exec, h);
    auto r = forked([&] { (void)*static_cast<volatile scalar*>(&m.view().entry(localIdx(i), j)); });
    PBT_CHECK(!r.exited || r.status != RETURNED, "entry (", i, ", ", j, ") does not exist, yet was returned");
}

template<typename T, typename I>
static void copies(pbt::Gen& g)
{
    auto exec = executor(g);
    auto to = executor(g.index(3));
    auto h = matrix<T, I>(g);
    g.note("copied to ", name(to));
    if (!(exec == to) && h.val.size() > 1) g.nontrivial();
    auto m = make(exec, h);
    auto onHost = m.copyToHost();
    auto there = m.copyToExecutor(to);
    la::CSRMatrix<T, I> copy(m);
    agree(onHost, h, executor(0), "copyToHost");
    agree(there, h, to, "copyToExecutor");
    agree(copy, h, exec, "copy");
    auto rhs = values<T>(g, h.n());
    la::LinearSystem<T, I> ls(m, field(exec, rhs));
    la::LinearSystem<T, I> lsCopy(ls);
    auto lsHost = ls.copyToHost();
    for (auto& x : h.val) (void)x;
    auto h2 = h;
    for (size_t k = 0; k < h.val.size(); k++)
    {
        h2.val[k] = value<T>(g);
        auto all = everywhere();
        copy.view().values[k] = h2.val[k];
    }
    agree(m, h, exec, "matrix after the copy was written");
    agree(there, h, to, "other copy after the copy was written");
    agree(copy, h2, exec, "written copy");
    agree(lsHost.matrix(), h, executor(0), "system copied to the host");
    PBT_CHECK(lsHost.rhs().exec() == executor(0) && lsHost.exec() == executor(0), "executor of the system copied to the host");
    exact(host(lsHost.rhs()), rhs, "rhs copied to the host");
    PBT_CHECK(ls.exec() == exec && ls.rhs().exec() == exec, "executor of the system");
    ls.reset();
    auto z = h;
    for (auto& x : z.val) x = NeoFOAM::zero<T>();
    agree(ls.matrix(), z, exec, "system after reset");
    exact(host(ls.rhs()), std::vector<T>(h.n(), NeoFOAM::zero<T>()), "rhs after reset");
    agree(lsCopy.matrix(), h, exec, "copy of the system after reset");
    exact(host(lsCopy.rhs()), rhs, "rhs of the copy after reset");
    agree(m, h, exec, "matrix the system was made from");
    auto v = lsCopy.view();
    PBT_CHECK(v.rhs.data() == lsCopy.rhs().data() && v.rhs.size() == h.n() && v.matrix.values.data() == lsCopy.matrix().values().data()
                  && v.matrix.colIdxs.data() == lsCopy.matrix().colIdxs().data() && v.matrix.rowOffs.data() == lsCopy.matrix().rowPtrs().data(), "view of the system");
    la::CSRMatrix<T, I> none(exec);
    PBT_CHECK(none.nRows() == 0 && none.nNonZeros() == 0 && none.exec() == exec, "empty matrix");
    la::LinearSystem<T, I> empty(exec);
    PBT_CHECK(empty.matrix().nRows() == 0 && empty.rhs().size() == 0 && empty.exec() == exec, "empty system");
}
PBT(copies_and_reset, 4000, 100000, "a transfer between executors of a matrix of at least two entries")
{
    balanced([&] {
        if (g.boolean()) copies<Vector, localIdx>(g);
        else copies<scalar, localIdx>(g);
    });
}

template<typename TI, typename II, typename TO, typename IO>
static void conversion(pbt::Gen& g)
{
    auto exec = executor(g);
    auto h = matrix<TI, II>(g);
    const auto m = make(exec, h);
    if (h.val.size() > 2) g.nontrivial();
    auto check = [&](const la::CSRMatrix<TO, IO>& c, const std::string& who)
    {
        PBT_CHECK(c.exec() == exec && size_t(c.nRows()) == h.n() && size_t(c.nNonZeros()) == h.val.size(), who, ": size or executor");
        auto all = everywhere();
        for (size_t k = 0; k < h.val.size(); k++)
        {
            PBT_CHECK(c.values().data()[k] == TO(h.val[k]), who, ": value ", k);
            PBT_CHECK(host(c.colIdxs())[k] == IO(h.col[k]), who, ": column ", k);
        }
        for (size_t i = 0; i <= h.n(); i++) PBT_CHECK(c.rowPtrs().data()[i] == IO(h.row[i]), who, ": row ", i);
    };
    check(la::convert<TI, II, TO, IO>(exec, m.view()), "convert");
    agree(m, h, exec, "source of the conversion");
    auto rhs = values<TI>(g, h.n());
    la::LinearSystem<TI, II> ls(m, field(exec, rhs));
    auto c = la::convertLinearSystem<TI, II, TO, IO>(ls);
    check(c.matrix(), "convertLinearSystem");
    PBT_CHECK(c.rhs().size() == h.n(), "rhs");
    auto got = host(c.rhs());
    for (size_t i = 0; i < h.n(); i++) PBT_CHECK(got[i] == TO(rhs[i]), "rhs ", i);
}
PBT(conversions_keep_the_matrix, 4000, 100000, "more than two entries")
{
    switch (g.index(3))
    {
    case 0: conversion<scalar, localIdx, scalar, int>(g); break;
    case 1: conversion<scalar, localIdx, float, int>(g); break;
    default: conversion<float, int, scalar, localIdx>(g);
    }
}

PBT(spmv_is_the_residual, 5000, 200000, "a matrix with off-diagonal entries and a nonzero vector")
{
    auto exec = executor(g);
    auto h = matrix<scalar, localIdx>(g);
    auto b = values<scalar>(g, h.n()), x = values<scalar>(g, h.n());
    la::LinearSystem<scalar, localIdx> ls(make(exec, h), field(exec, b));
    auto xf = field(exec, x);
    if (h.val.size() > h.n() && magnitude(x) > 0) g.nontrivial();
    auto r = la::spmv(ls, xf);
    PBT_CHECK(r.exec() == exec && r.size() == h.n(), "size or executor of the result");
    auto got = host(r);
    for (size_t i = 0; i < h.n(); i++)
    {
        double s = -b[i], scale = std::fabs(b[i]);
        for (size_t k = h.row[i]; k < h.row[i + 1]; k++)
        {
            s += h.val[k] * x[h.col[k]];
            scale += std::fabs(h.val[k] * x[h.col[k]]);
        }
        PBT_CHECK(close(got[i], s, scale, 1e-12), "row ", i, " of A x - b is ", got[i], ", expected ", s);
    }
    agree(ls.matrix(), h, exec, "matrix after the product");
    exact(host(ls.rhs()), b, "rhs after the product");
    exact(host(xf), x, "x after the product");
}

template<typename T>
static void emptySystem(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = anyMesh(g);
    auto u = build(exec, m);
    fvcc::SparsityPattern sp(u);
    auto ls = la::createEmptyLinearSystem<T, localIdx>(sp);
    if (m.nInt()) g.nontrivial();
    PBT_CHECK(ls.exec() == exec && ls.matrix().nRows() == m.nCells() && ls.rhs().size() == m.nCells() && ls.matrix().nNonZeros() == sp.nnz(), "sizes");
    exact(host(ls.matrix().values()), std::vector<T>(sp.nnz(), NeoFOAM::zero<T>()), "values");
    exact(host(ls.rhs()), std::vector<T>(m.nCells(), NeoFOAM::zero<T>()), "rhs");
    PBT_CHECK(host(ls.matrix().colIdxs()) == host(sp.colIdxs()) && host(ls.matrix().rowPtrs()) == host(sp.rowPtrs()), "pattern");
    // each entry of the pattern is found
    auto v = ls.view();
    auto all = everywhere();
    for (size_t f = 0; f < m.nInt(); f++)
    {
        localIdx o = localIdx(m.own[f]), n = localIdx(m.nei[f]);
        v.matrix.entry(o, n) += NeoFOAM::one<T>();
        v.matrix.entry(n, o) += NeoFOAM::one<T>();
        v.matrix.entry(o, o) += NeoFOAM::one<T>();
    }
    auto row = host(sp.rowPtrs()), col = host(sp.colIdxs());
    std::vector<double> diag(m.nCells(), 0);
    for (size_t f = 0; f < m.nInt(); f++) diag[m.own[f]] += 1;
    auto got = host(ls.matrix().values());
    for (size_t i = 0; i < m.nCells(); i++)
        for (size_t k = row[i]; k < row[i + 1]; k++)
            PBT_CHECK(num::same(got[k], NeoFOAM::one<T>() * scalar(col[k] == i ? diag[i] : 1.0)), "entry (", i, ", ", col[k], ")");
}
PBT(empty_system_of_a_mesh, 3000, 60000, "a mesh with internal faces")
{
    if (g.boolean()) emptySystem<Vector>(g);
    else emptySystem<scalar>(g);
}

PBT(mismatches_are_refused, 150, 3000, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    auto h = matrix<scalar, localIdx>(g, 5);
    size_t what = g.index(3);
    auto other = executor((exec.index() + 1 + g.index(2)) % 3);
    g.note("mismatch ", what);
    auto m = make(exec, h);
    auto rhs = values<scalar>(g, what == 0 ? h.n() + 1 + g.index(3) : h.n());
    auto r = forked([&] {
        if (what == 0) la::LinearSystem<scalar, localIdx> ls(m, field(exec, rhs));
        else if (what == 1) la::LinearSystem<scalar, localIdx> ls(m, field(other, rhs));
        else if (g.boolean()) la::CSRMatrix<scalar, localIdx> c(field(exec, h.val), field(other, h.col), field(exec, h.row));
        else la::CSRMatrix<scalar, localIdx> c(field(exec, h.val), field(exec, h.col), field(other, h.row));
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on");
}
