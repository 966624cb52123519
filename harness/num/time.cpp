// C26: time derivatives, time integration and the solution of equations.
#include "equations.hpp"

// ---- the time derivative as an operator
template<typename T>
static void ddtCase(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    auto k = coefficient(g, exec, m.nCells());
    double t = g.real(), dt = g.positive(0.01, 4.0);
    g.note("time step ", dt, ", cells ", str(h.in));
    if (m.nCells() > 1) g.nontrivial();
    Database db;
    auto& fields = fvcc::FieldCollection::instance(db, "fields");
    auto& x = fields.registerField<VolumeField<T>>(CreateField<T> {"T", u, h, {}});
    bool implicit = g.boolean();
    fvcc::DdtOperator<T> op(implicit ? Type::Implicit : Type::Explicit, x);
    op.getCoefficient() *= coeff(k);
    dsl::TemporalOperator<T> to(op);
    PBT_CHECK(to.getName() == "DdtOperator" && to.exec() == exec && (to.getType() == Type::Implicit) == implicit, "name, executor or type");
    std::vector<T> old = h.in;
    if (g.boolean())
    {
        old = values<T>(g, m.nCells());
        put(fvcc::oldTime(x).internalField(), old);
    }
    if (g.boolean())
    {
        h.in = values<T>(g, m.nCells());
        // the first look at the old field takes the content of the field at that time
        if (old.size()) (void)fvcc::oldTime(x);
        put(x.internalField(), h.in);
    }
    bool erased = g.boolean();
    for (size_t round = 0; round < 2; round++)
    {
        auto junk = values<T>(g, m.nCells());
        if (implicit)
        {
            auto pattern = fvcc::SparsityPattern::readOrCreate(u);
            auto ls = la::createEmptyLinearSystem<T, localIdx>(*pattern);
            put(ls.matrix().values(), values<T>(g, ls.matrix().values().size()));
            put(ls.rhs(), junk);
            auto before = hostSystem(ls);
            if (erased) to.implicitOperation(ls, t, dt);
            else op.implicitOperation(ls, t, dt);
            auto after = hostSystem(ls);
            for (size_t i = 0; i < m.nCells(); i++)
            {
                double c = k[i] * m.V[i] / dt;
                for (size_t j = after.row[i]; j < after.row[i + 1]; j++)
                {
                    T want = before.val[j];
                    if (after.col[j] == i) want = want + NeoFOAM::one<T>() * c;
                    PBT_CHECK(close(after.val[j], want, norm(before.val[j]) + std::fabs(c), 1e-12), "entry ", i, ", ", after.col[j], " is ", str(after.val[j]), ", expected ", str(want));
                }
                T want = junk[i] + old[i] * c;
                PBT_CHECK(close(after.rhs[i], want, norm(junk[i]) + norm(old[i]) * std::fabs(c), 1e-12), "right-hand side ", i, " is ", str(after.rhs[i]), ", expected ", str(want));
            }
        }
        else
        {
            Field<T> s = field(exec, junk);
            if (erased) to.explicitOperation(s, t, dt);
            else op.explicitOperation(s, t, dt);
            auto got = host(s);
            for (size_t i = 0; i < m.nCells(); i++)
            {
                double c = k[i] * m.V[i] / dt;
                T want = junk[i] + (h.in[i] - old[i]) * c;
                PBT_CHECK(close(got[i], want, norm(junk[i]) + (norm(h.in[i]) + norm(old[i])) * std::fabs(c), 1e-12), "source ", i, " is ", str(got[i]), ", expected ", str(want));
            }
        }
    }
    unchanged(x, h, "field");
    exact(host(fvcc::oldTime(x).internalField()), old, "old field");
}
PBT(time_derivative, 16000, 300000, "several cells")
{
    if (g.boolean()) ddtCase<Vector>(g);
    else ddtCase<scalar>(g);
}

template<typename T>
static void explicitSteps(pbt::Gen& g)
{
    Problem<T> p(g);
    constexpr bool isScalar = std::is_same_v<T, scalar>;
    bool rk = isScalar && g.boolean();
    p.addTerms(3, false);
    p.eqn->addOperator(dsl::imp::ddt(*p.x));
    Dictionary ddt;
    ddt.insert("type", std::string(rk ? "Runge-Kutta" : "forwardEuler"));
    ddt.insert("Runge-Kutta-Method", std::string("Forward-Euler"));
    p.fvSchemes.insert("ddtSchemes", ddt);
    bool keep = !isScalar || g.boolean();
    g.note(rk ? "Runge-Kutta" : "forward Euler", keep ? ", one integrator" : ", solve");
    p.eqn->build(p.fvSchemes);
    const Dictionary& scheme = p.fvSchemes.subDict("ddtSchemes");
    using Integration = ti::TimeIntegration<VolumeField<T>>;
    std::optional<Integration> integrator;
    integrator.emplace(scheme, p.fvSolution);
    std::vector<T> old = p.h.in;
    double t = g.boolean() ? 0.0 : 3.0, dt = p.step();
    size_t steps = g.size(1, 4);
    if (p.m.nInt() > 1 && p.m.nBnd() && p.ex.size() && steps > 1) g.nontrivial();
    bool seen = false; // the old field exists
    for (size_t i = 0; i < steps && p.small(); i++)
    {
        // changes from outside; an integrator that is kept advances its own state (and its own time)
        if (!(keep && rk))
        {
            dt = p.step();
            if (g.chance(1, 3))
            {
                p.h.in = values<T>(g, p.m.nCells());
                put(p.x->internalField(), p.h.in);
                if (g.boolean()) p.x->correctBoundaryConditions();
                p.h = read<T>(*p.x);
                if (!seen) old = p.h.in;
                g.label("changed between steps");
            }
            if (g.chance(1, 3))
            {
                old = values<T>(g, p.m.nCells());
                put(fvcc::oldTime(*p.x).internalField(), old);
                seen = true;
            }
        }
        else if (i == 0)
            dt = 1.0 / double(uint64_t(1) << g.range(0, 12));
        if (keep && g.chance(1, 3))
        {
            Integration copy(*integrator);
            integrator.reset();
            integrator.emplace(std::move(copy));
            g.label("copied integrator");
        }
        auto src = p.sum(p.ex, p.h);
        seen = true;
        if (keep) integrator->solve(*p.eqn, *p.x, t, dt);
        else if constexpr (isScalar) dsl::solve(*p.eqn, *p.x, t, dt, p.fvSchemes, p.fvSolution);
        t += dt;
        Sums<T> want(p.m.nCells());
        for (size_t c = 0; c < p.m.nCells(); c++)
        {
            want.add(c, old[c]);
            want.add(c, src.v[c] * -dt);
            want.scale[c] += src.scale[c] * dt;
        }
        auto got = read<T>(*p.x);
        want.check(got.in, "step " + std::to_string(i) + ": new value", 1e-10);
        HostField<T> y = p.h;
        y.in = got.in;
        correct(y, p.m, p.conds);
        double scale = magnitude(y.in) + magnitude(y.value);
        near(got.value, y.value, scale, "boundary values after the step", 1e-12);
        exact(got.refValue, y.refValue, "reference values after the step");
        old = host(fvcc::oldTime(*p.x).internalField());
        exact(old, got.in, "old field after the step");
        p.h = got;
    }
    p.inputs();
}
PBT(explicit_time_steps, 12000, 200000, "several internal faces, a boundary, explicit terms and two steps or more")
{
    if (g.chance(1, 3)) explicitSteps<Vector>(g);
    else explicitSteps<scalar>(g);
}

PBT(implicit_time_steps, 12000, 200000, "several internal faces, a boundary, implicit and explicit terms")
{
    Problem<scalar> p(g);
    p.addTerms(2, false);
    p.addTerms(3, true);
    double k = g.boolean() ? 1.0 : g.positive(0.1, 3.0);
    p.eqn->addOperator(k * dsl::imp::ddt(*p.x));
    if (p.m.nInt() > 1 && p.m.nBnd() && p.ex.size() && p.im.size()) g.nontrivial();
    Dictionary ddt;
    ddt.insert("type", std::string("backwardEuler"));
    p.fvSchemes.insert("ddtSchemes", ddt);
    bool keep = g.boolean();
    g.note("backward Euler, ddt times ", k, keep ? ", one integrator" : ", solve");
    p.eqn->build(p.fvSchemes);
    using Integration = ti::TimeIntegration<VolumeField<scalar>>;
    Integration integrator(p.fvSchemes.subDict("ddtSchemes"), p.fvSolution);
    std::vector<scalar> old = p.h.in;
    size_t steps = g.size(1, 3);
    bool seen = false;
    for (size_t i = 0; i < steps; i++)
    {
        double dt = p.step(), t = g.real();
        if (g.chance(1, 3))
        {
            p.h.in = values<scalar>(g, p.m.nCells());
            put(p.x->internalField(), p.h.in);
            p.x->correctBoundaryConditions();
            p.h = read<scalar>(*p.x);
            if (!seen) old = p.h.in;
        }
        if (g.chance(1, 3))
        {
            old = values<scalar>(g, p.m.nCells());
            put(fvcc::oldTime(*p.x).internalField(), old);
        }
        seen = true;
        auto& r = recorded();
        r = Recorded {};
        r.answer = values<scalar>(g, p.m.nCells());
        if (keep)
        {
            Integration copy(integrator);
            (g.boolean() ? copy : integrator).solve(*p.eqn, *p.x, t, dt);
        }
        else dsl::solve(*p.eqn, *p.x, t, dt, p.fvSchemes, p.fvSolution);
        PBT_CHECK(r.calls == 1 && r.sameExec && r.marker == p.fvSolution.get<std::string>("marker"), "the solver was called ", r.calls, " times, with marker ", r.marker);
        systemIs(p, p.h, k / dt, old, "step " + std::to_string(i));
        auto got = read<scalar>(*p.x);
        exact(got.in, r.answer, "solution");
        HostField<scalar> y = p.h;
        y.in = got.in;
        correct(y, p.m, p.conds);
        near(got.value, y.value, magnitude(y.in) + magnitude(y.value), "boundary values after the step", 1e-12);
        old = host(fvcc::oldTime(*p.x).internalField());
        exact(old, got.in, "old field after the step");
        p.h = got;
    }
    p.inputs();
}

PBT(steady_equations, 12000, 200000, "several internal faces, a boundary, implicit and explicit terms")
{
    Problem<scalar> p(g);
    p.addTerms(2, false);
    p.addTerms(3, true);
    if (p.ex.empty() && p.im.empty())
    {
        // nothing to solve
        if (!g.chance(1, 20)) return;
        auto r = forked([&] { dsl::solve(*p.eqn, *p.x, 0.0, 1.0, p.fvSchemes, p.fvSolution); });
        PBT_CHECK(!r.exited || r.status != RETURNED, "an empty equation was solved");
        return;
    }
    if (p.m.nInt() > 1 && p.m.nBnd() && p.ex.size() && p.im.size()) g.nontrivial();
    auto& r = recorded();
    for (size_t round = 0; round < 2; round++)
    {
        r = Recorded {};
        r.answer = values<scalar>(g, p.m.nCells());
        dsl::solve(*p.eqn, *p.x, g.real(), p.step(), p.fvSchemes, p.fvSolution);
        PBT_CHECK(r.calls == 1 && r.sameExec && r.marker == p.fvSolution.get<std::string>("marker"), "the solver was called ", r.calls, " times, with marker ", r.marker);
        exact(r.guess, p.h.in, "first guess");
        systemIs(p, p.h, 0, p.h.in, "steady equation");
        auto got = read<scalar>(*p.x);
        exact(got.in, r.answer, "solution");
        HostField<scalar> y = p.h;
        y.in = got.in;
        correct(y, p.m, p.conds);
        near(got.value, y.value, magnitude(y.in) + magnitude(y.value), "boundary values of the solution", 1e-12);
        p.h = got;
    }
    p.inputs();
}

// ---- solvers and integrators by name
PBT(choice_by_name, 600, 6000, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    size_t n = g.size(1, 6);
    auto pattern = [&]
    {
        std::vector<localIdx> col, row {0};
        for (size_t i = 0; i < n; i++) col.push_back(localIdx(i)), row.push_back(localIdx(i + 1));
        auto v = values<scalar>(g, n);
        return la::LinearSystem<scalar, localIdx>(la::CSRMatrix<scalar, localIdx>(field(exec, v), field(exec, col), field(exec, row)), field(exec, values<scalar>(g, n)));
    };
    auto ls = pattern();
    Dictionary d;
    std::string marker = g.text(4);
    d.insert("marker", marker);
    d.insert("solver", std::string("recording"));
    la::Solver solver(exec, d);
    la::Solver copy(solver);
    la::Solver moved(std::move(solver));
    la::Solver given(exec, la::SolverFactory::create(exec, d));
    auto guess = values<scalar>(g, n);
    for (la::Solver* s : {&copy, &moved, &given})
    {
        recorded() = Recorded {};
        recorded().answer = values<scalar>(g, n);
        Field<scalar> x = field(exec, guess);
        s->solve(ls, x);
        PBT_CHECK(recorded().calls == 1 && recorded().marker == marker && recorded().sameExec, "solver called");
        exact(recorded().guess, guess, "first guess");
        exact(recorded().system.val, host(ls.matrix().values()), "matrix");
        exact(recorded().system.rhs, host(ls.rhs()), "right-hand side");
        exact(host(x), recorded().answer, "answer");
    }
    size_t what = g.index(4);
    std::string bad = g.pick(std::vector<std::string> {"Recording", "", "recording ", "Ginkgo2", "ForwardEuler", "forwardeuler", "RK"});
    auto r = forked([&] {
        Dictionary e;
        if (what == 0) (void)la::Solver(exec, e);
        else if (what == 1)
        {
            e.insert("solver", bad);
            (void)la::Solver(exec, e);
        }
        else if (what == 2) ti::TimeIntegration<VolumeField<scalar>> t(e, d);
        else
        {
            e.insert("type", bad);
            ti::TimeIntegration<VolumeField<scalar>> t(e, d);
        }
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on with choice ", what, " ", bad);
}

// ---- findings that are recorded, not repaired (known_findings.txt)
static double oneCell(const std::string& type, bool implicitTerm, double factor)
{
    Executor exec = NeoFOAM::SerialExecutor {};
    auto u = NeoFOAM::createSingleCellMesh(exec);
    Database db;
    auto& fields = fvcc::FieldCollection::instance(db, "fields");
    HostField<scalar> h {{4.0}, std::vector<scalar>(4, 0.0), std::vector<scalar>(4, 0.0), std::vector<scalar>(4, 0.0), std::vector<scalar>(4, 0.0)};
    auto& x = fields.registerField<VolumeField<scalar>>(CreateField<scalar> {"T", u, h, {}});
    auto one = fields.registerField<VolumeField<scalar>>(CreateField<scalar> {"one", u, h, {}});
    put(one.internalField(), std::vector<scalar> {1.0});
    dsl::Expression<scalar> eqn(exec);
    eqn.addOperator(factor * dsl::imp::ddt(x));
    if (implicitTerm) eqn.addOperator(dsl::imp::source(one, x));
    else eqn.addOperator(dsl::SpatialOperator<scalar>(Spring<scalar>(x)));
    Dictionary schemes, ddt, solution;
    ddt.insert("type", type);
    ddt.insert("Runge-Kutta-Method", std::string("Forward-Euler"));
    schemes.insert("ddtSchemes", ddt);
    dsl::solve(eqn, x, 0.0, 0.5, schemes, solution);
    return host(x.internalField())[0];
}
PBT_KNOWN(explicit_integrators_ignore_the_factor_of_ddt)
{
    // 2 dT/dt + T = 0 from 4 with time step 0.5: 4 - 0.5 * 4 / 2
    double fe = oneCell("forwardEuler", false, 2.0), rk = oneCell("Runge-Kutta", false, 2.0);
    what = "2.0 * ddt(T) + T = 0 advances from 4 with dt 0.5 to " + str(fe) + " (forwardEuler), " + str(rk) + " (Runge-Kutta); expected 3";
    return fe != 3.0 || rk != 3.0;
}
PBT_KNOWN(explicit_integrators_drop_implicit_terms)
{
    Ended r = forked([] {
        double fe = oneCell("forwardEuler", true, 1.0), rk = oneCell("Runge-Kutta", true, 1.0);
        if (fe != 4.0 && rk != 4.0) std::exit(0);
    });
    what = "ddt(T) + imp::source(one, T) = 0 leaves T as it is, without a message, under forwardEuler or Runge-Kutta";
    return r.exited && r.status == RETURNED;
}
