// C24: the implicit operators assemble exactly what the explicit ones compute.
#include "operators.hpp"
using namespace num;

// boundary data with which all forms of a mixed condition agree: value = f refValue + (1 - f) (cell + refGrad / distance)
template<typename T>
static void consistent(HostField<T>& h, const HostMesh& m, const std::vector<scalar>& bdc)
{
    for (size_t b = 0; b < m.nBnd(); b++)
    {
        const T cell = h.in[m.own[m.nInt() + b]];
        h.value[b] = h.refValue[b] * h.fraction[b] + (cell + h.refGrad[b] * (1.0 / bdc[b])) * (1 - h.fraction[b]);
    }
}

template<typename T, typename Op>
static void implicitCase(pbt::Gen& g)
{
    constexpr bool isDiv = std::is_same_v<Op, fvcc::DivOperator<T>>;
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto dc = nonOrthDeltaCoeffs(m);
    m.bdc.assign(dc.begin() + long(m.nInt()), dc.end());
    auto u = build(exec, m);
    // conditions that do not depend on the cell values, or (once) any
    bool lagged = g.chance(1, 3);
    auto types = lagged ? VOLUME_TYPES : std::vector<std::string> {"fixedValue", "fixedGradient", "calculated", "empty"};
    auto conds = conditions<T>(g, m.nPatches(), types);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    for (auto& f : h.fraction) f = g.chance(1, 3) ? double(g.index(2)) : double(g.below(1001)) / 1000;
    auto coef = values<scalar>(g, m.nFaces());
    if (coef.size() && g.boolean()) coef[g.index(coef.size())] = g.boolean() ? 0.0 : -0.0;
    auto k = coefficient(g, exec, m.nCells());
    g.note(isDiv ? "divergence" : "Laplacian", ", cells ", str(h.in), ", face values ", str(coef));
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    auto x = volumeField<T>(exec, "T", u, h, conds);
    x.correctBoundaryConditions();
    h = read<T>(x);
    consistent(h, m, m.bdc);
    write(x, h);
    auto face = surfaceField<scalar>(exec, "phi", u, coef);
    Op op(Type::Implicit, face, x, isDiv ? tokens({"Gauss", "upwind"}) : tokens({"Gauss", "linear", "uncorrected"}));
    op.getCoefficient() *= coeff(k);
    // into a system that holds something already
    // the pattern the operators use; another one of the same mesh may list the columns of a row in another order
    auto shared = fvcc::SparsityPattern::readOrCreate(u);
    const fvcc::SparsityPattern& pattern = *shared;
    auto ls = la::createEmptyLinearSystem<T, localIdx>(pattern);
    put(ls.matrix().values(), values<T>(g, ls.matrix().values().size()));
    put(ls.rhs(), values<T>(g, m.nCells()));
    auto before = hostSystem(ls);
    if (g.boolean()) op.implicitOperation(ls);
    else
    {
        dsl::SpatialOperator<T> so(op);
        PBT_CHECK(so.getType() == Type::Implicit, "type of the erased operator");
        so.implicitOperation(ls);
    }
    auto after = hostSystem(ls);
    exact(after.row, before.row, "row pointers");
    exact(after.col, before.col, "columns");
    unchanged(x, h, "field");
    exact(host(face.internalField()), coef, "face field");
    // the system minus what it held, applied to any cell values, is volume times the explicit operator
    for (size_t probe = 0; probe < (lagged ? 1u : 3u); probe++)
    {
        HostField<T> y = h;
        if (probe) y.in = values<T>(g, m.nCells());
        if (probe == 2)
        {
            y.in.assign(m.nCells(), NeoFOAM::zero<T>());
            y.in[g.index(m.nCells())] = NeoFOAM::one<T>();
        }
        consistent(y, m, m.bdc);
        auto yf = volumeField<T>(exec, "T", u, y, conds);
        Op ex(Type::Explicit, face, yf, isDiv ? tokens({"Gauss", "upwind"}) : tokens({"Gauss", "linear", "uncorrected"}));
        ex.getCoefficient() *= coeff(k);
        Field<T> out = field(exec, std::vector<T>(m.nCells(), NeoFOAM::zero<T>()));
        ex.explicitOperation(out);
        auto e = host(out);
        auto ra = residual(after, y.in), rb = residual(before, y.in);
        // terms of boundary faces that cancel in what a row holds
        double across = 1;
        if constexpr (!isDiv) across = magnitude(m.mags()) * magnitude(nonOrthDeltaCoeffs(m));
        double hidden = COARSE * magnitude(coef) * across * (magnitude(y.in) + magnitude(y.value));
        for (size_t c = 0; c < m.nCells(); c++)
        {
            T got = ra.v[c] - rb.v[c], want = e[c] * m.V[c];
            PBT_CHECK(close(got, want, ra.scale[c] + rb.scale[c] + norm(want) + hidden * std::fabs(k[c]), 1e-10), "probe ", probe, ": the implicit operator gives cell ", c, " ", str(got),
                ", volume times the explicit one ", str(want));
        }
    }
    if constexpr (!isDiv)
    {
        // with a coefficient that is the same everywhere, diffusion is mutual
        if (k.v.empty() && m.nInt())
            for (size_t f = 0; f < m.nInt(); f++)
            {
                auto entry = [&](size_t r, size_t c)
                {
                    for (size_t j = after.row[r]; j < after.row[r + 1]; j++)
                        if (after.col[j] == c) return after.val[j] - before.val[j];
                    PBT_CHECK(false, "no entry ", r, ", ", c);
                    return T {};
                };
                T a = entry(m.own[f], m.nei[f]), b = entry(m.nei[f], m.own[f]);
                PBT_CHECK(close(a, b, 1e3 + norm(a), 1e-10), "entries across face ", f, " are ", str(a), " and ", str(b));
            }
    }
}
PBT(implicit_divergence_is_the_explicit_upwind_one, 16000, 400000, "several internal faces and a boundary")
{
    if (g.boolean()) implicitCase<Vector, fvcc::DivOperator<Vector>>(g);
    else implicitCase<scalar, fvcc::DivOperator<scalar>>(g);
}
PBT(implicit_laplacian_is_the_explicit_one, 16000, 400000, "several internal faces and a boundary")
{
    if (g.boolean()) implicitCase<Vector, fvcc::LaplacianOperator<Vector>>(g);
    else implicitCase<scalar, fvcc::LaplacianOperator<scalar>>(g);
}

template<typename T>
static void sourceCase(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    auto hc = content<scalar>(g, m.nCells(), m.nBnd());
    auto k = coefficient(g, exec, m.nCells());
    if (m.nCells() > 1 && m.nInt()) g.nontrivial();
    g.note("cells ", str(h.in), ", coefficients ", str(hc.in));
    auto x = volumeField<T>(exec, "T", u, h, {});
    auto c = volumeField<scalar>(exec, "Sp", u, hc, {});
    fvcc::SourceTerm<T> ex(Type::Explicit, c, x), im(Type::Implicit, c, x);
    ex.getCoefficient() *= coeff(k);
    im.getCoefficient() *= coeff(k);
    PBT_CHECK(ex.getType() == Type::Explicit && im.getType() == Type::Implicit && ex.getName() == "sourceTerm" && ex.exec() == exec, "type, name or executor");
    auto junk = values<T>(g, m.nCells());
    Field<T> out = field(exec, junk);
    Sums<T> want(m.nCells());
    for (size_t i = 0; i < m.nCells(); i++) want.add(i, h.in[i] * (k[i] * hc.in[i]));
    bool erased = g.boolean();
    dsl::SpatialOperator<T> sex(ex), sim(im);
    if (erased) sex.explicitOperation(out);
    else ex.explicitOperation(out);
    want.over(junk).check(host(out), "source added to a source");
    // the pattern the operators use; another one of the same mesh may list the columns of a row in another order
    auto shared = fvcc::SparsityPattern::readOrCreate(u);
    const fvcc::SparsityPattern& pattern = *shared;
    auto ls = la::createEmptyLinearSystem<T, localIdx>(pattern);
    put(ls.matrix().values(), values<T>(g, ls.matrix().values().size()));
    put(ls.rhs(), values<T>(g, m.nCells()));
    auto before = hostSystem(ls);
    if (erased) sim.implicitOperation(ls);
    else im.implicitOperation(ls);
    auto after = hostSystem(ls);
    exact(after.rhs, before.rhs, "right-hand side");
    for (size_t i = 0; i < m.nCells(); i++)
        for (size_t j = after.row[i]; j < after.row[i + 1]; j++)
        {
            if (after.col[j] != i)
            {
                PBT_CHECK(same(after.val[j], before.val[j]), "entry ", i, ", ", after.col[j], " changed");
                continue;
            }
            T d = NeoFOAM::one<T>() * (k[i] * hc.in[i] * m.V[i]);
            PBT_CHECK(close(after.val[j], before.val[j] + d, norm(before.val[j]) + norm(d), 1e-12), "diagonal ", i, " is ", str(after.val[j]), ", expected ",
                str(before.val[j] + d));
        }
    unchanged(x, h, "field");
    unchanged(c, hc, "coefficients");
}
PBT(source_terms, 16000, 400000, "several cells")
{
    if (g.boolean()) sourceCase<Vector>(g);
    else sourceCase<scalar>(g);
}
