// C33: equations that are assembled into, changed in and solved from a linear system of their own.
#include "equations.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"

template<typename T>
static HostSystem<T> systemOf(const fvcc::Expression<T>& e)
{
    const auto& ls = e.linearSystem();
    return {host(ls.matrix().rowPtrs()), host(ls.matrix().colIdxs()), host(ls.matrix().values()), host(ls.rhs())};
}
template<typename T>
static void sameSystem(const HostSystem<T>& got, const HostSystem<T>& want, const std::string& what)
{
    PBT_CHECK(got.row == want.row && got.col == want.col, what, ": pattern");
    exact(got.val, want.val, what + ": matrix");
    exact(got.rhs, want.rhs, what + ": right-hand side");
}

template<typename T>
static void assemblyCase(pbt::Gen& g)
{
    constexpr bool isScalar = std::is_same_v<T, scalar>;
    Problem<T> p(g);
    p.addTerms(2, false);
    p.addTerms(3, true);
    double k = 0, exK = 0;
    bool steady = g.boolean();
    if (!steady)
    {
        size_t n = g.size(1, 2);
        for (size_t i = 0; i < n; i++)
        {
            double f = double(g.range(-8, 8)) / 4;
            bool ex = g.chance(1, 3);
            p.eqn->addOperator(f * dsl::TemporalOperator<T>(fvcc::DdtOperator<T>(ex ? Type::Explicit : Type::Implicit, *p.x)));
            (ex ? exK : k) += f;
            g.note(ex ? "explicit" : "implicit", " time derivative times ", f);
        }
    }
    if (p.m.nInt() > 1 && p.m.nBnd() && p.ex.size() && p.im.size()) g.nontrivial();
    fvcc::Expression<T> first(*p.eqn, *p.x, p.fvSchemes, p.fvSolution);
    std::optional<fvcc::Expression<T>> copy;
    fvcc::Expression<T>* e = &first;
    const auto& ce = first;
    PBT_CHECK(first.exec() == p.exec && &first.getField() == p.x && &ce.getField() == p.x && &first.linearSystem() == &ce.linearSystem(), "executor or field");
    PBT_CHECK(&first.sparsityPattern() == fvcc::SparsityPattern::readOrCreate(p.u).get() && &ce.sparsityPattern() == &first.sparsityPattern(), "pattern");
    HostSystem<T> now = systemOf(first);
    auto diag = [&](size_t c)
    {
        for (size_t j = now.row[c]; j < now.row[c + 1]; j++)
            if (now.col[j] == c) return j;
        pbt::fail("no diagonal entry of cell ", c);
    };
    exact(now.val, std::vector<T>(now.val.size(), NeoFOAM::zero<T>()), "matrix before the first assembly");
    exact(now.rhs, std::vector<T>(p.m.nCells(), NeoFOAM::zero<T>()), "right-hand side before the first assembly");
    std::vector<T> old = p.h.in;
    bool seen = false;
    size_t n = g.size(1, 6);
    for (size_t i = 0; i < n; i++)
    {
        switch (g.weighted({4, 2, 2, 2, 1, 1}))
        {
        case 0:
        {
            double dt = p.step();
            bool timeless = steady && !(p.ex.empty() && p.im.empty()) && g.boolean();
            g.note(i, ": assemble", timeless ? "" : " with time step " + str(dt));
            if (timeless) e->assemble();
            else e->assemble(g.real(), dt);
            if (!steady) seen = true;
            HostSystem<T> before = now;
            now = systemOf(*e);
            PBT_CHECK(now.row == before.row && now.col == before.col, "assembling changed the pattern");
            equationIs(p, now, p.h, k / dt, old, exK / dt, "assembly " + std::to_string(i));
            unchanged(*p.x, p.h, "field of the equation");
            if (!steady) exact(host(fvcc::oldTime(*p.x).internalField()), old, "old field");
            break;
        }
        case 1:
            if constexpr (isScalar)
            {
            size_t c = g.index(p.m.nCells());
            T v = value<T>(g);
            g.note(i, ": reference ", str(v), " in cell ", c);
            e->setReference(localIdx(c), v);
            auto got = systemOf(*e);
            size_t d = diag(c);
            T rhs = now.rhs[c] + times(now.val[d], v);
            PBT_CHECK(close(got.rhs[c], rhs, norm(now.rhs[c]) + norm(now.val[d]) * norm(v), 1e-14), "right-hand side of the reference cell is ", str(got.rhs[c]), ", expected ", str(rhs));
            now.rhs[c] = got.rhs[c];
            now.val[d] = now.val[d] + now.val[d];
            sameSystem(got, now, "system with a reference");
            g.label("reference");
            }
            break;
        case 2:
            if constexpr (isScalar)
            {
            g.note(i, ": residual");
            auto y = content<T>(g, p.m.nCells(), p.m.nBnd());
            auto conds = conditions<T>(g, p.m.nPatches(), {"fixedValue", "fixedGradient"});
            auto psi = volumeField<T>(p.exec, "psi", p.u, y, conds);
            const auto& ref = *e;
            VolumeField<T> r = g.boolean() ? ref & psi : ref & *p.x;
            bool own = r.name == "ls_T";
            PBT_CHECK(own || r.name == "ls_psi", "name of the residual is ", r.name);
            residual(now, own ? p.h.in : y.in).check(host(r.internalField()), "residual", 1e-13);
            PBT_CHECK(r.exec() == p.exec && &r.mesh() == &p.u, "executor or mesh of the residual");
            unchanged(psi, y, "field of the residual");
            sameSystem(systemOf(*e), now, "system after a residual");
            }
            break;
        case 3:
        {
            g.note(i, ": new content");
            p.h.in = values<T>(g, p.m.nCells());
            put(p.x->internalField(), p.h.in);
            p.x->correctBoundaryConditions();
            p.h = read<T>(*p.x);
            if (!seen) old = p.h.in;
            if (!steady && g.boolean())
            {
                old = values<T>(g, p.m.nCells());
                put(fvcc::oldTime(*p.x).internalField(), old);
                seen = true;
            }
            sameSystem(systemOf(*e), now, "system after changes of the field");
            break;
        }
        case 4:
        {
            if (copy) break;
            g.note(i, ": copy");
            copy.emplace(*e);
            sameSystem(systemOf(*copy), now, "copy");
            PBT_CHECK(&copy->getField() == p.x && &copy->sparsityPattern() == &first.sparsityPattern() && &copy->linearSystem() != &first.linearSystem(), "copy refers to other things");
            // from here on one of the two is used, the other keeps what it has
            e = &*copy;
            break;
        }
        default:
            if constexpr (isScalar)
            {
                if (p.ex.empty() && p.im.empty()) break;
                if (!steady) break;
                g.note(i, ": solve");
                auto& r = recorded();
                r = Recorded {};
                r.answer = values<scalar>(g, p.m.nCells());
                e->solve(g.real(), p.step());
                PBT_CHECK(r.calls == 1 && r.sameExec && r.marker == p.fvSolution.template get<std::string>("marker"), "the solver was called ", r.calls, " times, with marker ", r.marker);
                sameSystem(r.system, now, "system given to the solver");
                exact(r.guess, p.h.in, "first guess");
                exact(host(p.x->internalField()), r.answer, "solution");
                sameSystem(systemOf(*e), now, "system after solving");
                p.x->correctBoundaryConditions();
                p.h = read<T>(*p.x);
                if (!seen) old = p.h.in;
                g.label("solved");
            }
        }
        if (copy && i + 1 == n)
        {
            // the original did not follow
            if constexpr (isScalar) first.setReference(0, value<T>(g));
            else first.assemble(0.0, 1.0);
            sameSystem(systemOf(*copy), now, "copy after a change of the original");
            g.label("copied");
        }
    }
    p.inputs();
}
PBT(assembled_equations, 12000, 200000, "several internal faces, a boundary, implicit and explicit terms")
{
    if (g.chance(1, 3)) assemblyCase<Vector>(g);
    else assemblyCase<scalar>(g);
}

PBT(nothing_to_solve, 200, 3000, "every case")
{
    g.nontrivial();
    Problem<scalar> p(g);
    bool temporal = g.boolean();
    if (temporal)
    {
        p.addTerms(2, true);
        p.eqn->addOperator(dsl::imp::ddt(*p.x));
    }
    bool timeless = !temporal && g.boolean();
    auto r = forked([&] {
        recorded().answer = p.h.in;
        fvcc::Expression<scalar> e(*p.eqn, *p.x, p.fvSchemes, p.fvSolution);
        if (timeless) e.assemble();
        else e.solve(0.0, 1.0);
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, temporal ? "a time-dependent equation was solved without a time scheme" : "an empty equation was solved");
}
