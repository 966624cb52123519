// C25: coefficients, operators and expressions.
#include <deque>
#include <optional>
#include "operators.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
using namespace num;
using dsl::Coeff;

// ---- coefficients: products of numbers and at most one field
PBT(coefficients, 40000, 800000, "a field and two factors or more")
{
    auto exec = executor(g);
    size_t n = g.size(1, 20);
    auto v = values<scalar>(g, n), w = values<scalar>(g, n);
    Field<scalar> fv = field(exec, v), fw = field(exec, w);
    struct Model
    {
        double c;
        int f; // 0: none, 1: v, 2: w
    };
    auto make = [&](Model& m)
    {
        m.f = int(g.index(3));
        m.c = 1;
        const Field<scalar>& fld = m.f == 2 ? fw : fv;
        if (g.boolean())
        {
            m.c = g.real();
            return m.f ? Coeff(m.c, fld) : Coeff(m.c);
        }
        return m.f ? Coeff(fld) : Coeff();
    };
    std::vector<Coeff> real;
    std::vector<Model> model;
    for (size_t i = 0; i < 3; i++)
    {
        Model m;
        real.push_back(make(m));
        model.push_back(m);
    }
    size_t factors = 0;
    bool fielded = false;
    auto check = [&](Coeff c, const Model& m, const std::string& what)
    {
        PBT_CHECK(c.hasSpan() == (m.f != 0), what, ": has a field: ", c.hasSpan());
        const auto& x = m.f == 2 ? w : v;
        Field<scalar> out = field(exec, std::vector<scalar>(n, 0.0));
        auto o = out.view();
        NeoFOAM::parallelFor(exec, {0, n}, KOKKOS_LAMBDA(const size_t i) { o[i] = c[i]; });
        auto got = host(out);
        for (size_t i = 0; i < n; i++)
        {
            double want = m.f ? m.c * x[i] : m.c;
            PBT_CHECK(close(got[i], want, std::fabs(want), 1e-12), what, " at ", i, " is ", got[i], ", expected ", want);
        }
        if (m.f) PBT_CHECK(c.view().size() == n && c.view().data() == (m.f == 2 ? fw : fv).data(), what, ": the field it refers to");
        Field<scalar> to = field(exec, values<scalar>(g, g.size(0, 8)));
        dsl::detail::toField(c, to);
        auto t = host(to);
        PBT_CHECK(t.size() == (m.f ? n : 1), what, ": as a field it has ", t.size(), " entries");
        for (size_t i = 0; i < t.size(); i++)
        {
            double want = m.f ? m.c * x[i] : m.c;
            PBT_CHECK(close(t[i], want, std::fabs(want), 1e-12), what, " as a field at ", i, " is ", t[i], ", expected ", want);
        }
        fielded = fielded || m.f;
    };
    size_t steps = g.size(1, 8);
    for (size_t s = 0; s < steps; s++)
    {
        size_t a = g.index(real.size()), b = g.index(real.size());
        size_t what = g.index(4);
        if (what == 0)
        {
            double k = g.real();
            g.note("number ", a, " times ", k);
            real[a] *= k;
            model[a].c *= k;
            factors++;
        }
        else if (model[a].f && model[b].f)
        {
            if (!g.chance(1, 30)) continue;
            auto r = forked([&] {
                if (what == 1) real[a] *= real[b];
                else (void)(real[a] * real[b]);
            });
            PBT_CHECK(!r.exited || r.status != RETURNED, "the product of two fields went on");
            g.label("refused");
        }
        else if (what == 1)
        {
            g.note("number ", a, " times number ", b);
            Model mb = model[b];
            real[a] *= real[b];
            model[a].c *= mb.c;
            if (mb.f) model[a].f = mb.f;
            factors++;
        }
        else if (what == 2)
        {
            g.note("new number from ", a, " and ", b);
            real.push_back(real[a] * real[b]);
            model.push_back({model[a].c * model[b].c, model[a].f ? model[a].f : model[b].f});
            factors++;
        }
        else
        {
            Coeff c(real[a]);
            real[b] = c;
            model[b] = model[a];
        }
    }
    for (size_t i = 0; i < real.size(); i++) check(real[i], model[i], "coefficient " + std::to_string(i));
    exact(host(fv), v, "first field");
    exact(host(fw), w, "second field");
    if (fielded && factors > 1) g.nontrivial();
}

// ---- operators of the harness
using Log = std::shared_ptr<std::vector<std::string>>;

template<typename T>
struct Spatial : dsl::OperatorMixin<VolumeField<T>>
{
    using FieldValueType = T;
    std::string name;
    Log log;
    std::string built = "nothing";
    Spatial(VolumeField<T>& f, Type type, std::string n, Log l) : dsl::OperatorMixin<VolumeField<T>>(f.exec(), Coeff(1.0), f, type), name(n), log(l) {}
    void explicitOperation(Field<T>& source) const
    {
        auto [s, f] = NeoFOAM::spans(source, this->field_.internalField());
        const Coeff c = this->coeffs_;
        NeoFOAM::parallelFor(source.exec(), source.range(), KOKKOS_LAMBDA(const size_t i) { s[i] += c[i] * f[i]; });
    }
    void implicitOperation(la::LinearSystem<T, localIdx>& ls)
    {
        auto rhs = ls.rhs().view();
        auto f = this->field_.internalField().view();
        auto val = ls.matrix().values().view();
        const Coeff c = this->coeffs_;
        NeoFOAM::parallelFor(ls.exec(), {0, rhs.size()}, KOKKOS_LAMBDA(const size_t i) { rhs[i] += c[i] * f[i]; });
        NeoFOAM::parallelFor(ls.exec(), {0, val.size()}, KOKKOS_LAMBDA(const size_t i) { val[i] += c[i % f.size()] * f[i % f.size()]; });
    }
    void build(const Input& in)
    {
        built = std::get<Dictionary>(in).get<std::string>("scheme");
        log->push_back(name + "<-" + built);
    }
    std::string getName() const { return name; }
};
template<typename T>
struct Temporal : dsl::OperatorMixin<VolumeField<T>>
{
    using FieldValueType = T;
    std::string name;
    Log log;
    Temporal(VolumeField<T>& f, Type type, std::string n, Log l) : dsl::OperatorMixin<VolumeField<T>>(f.exec(), Coeff(1.0), f, type), name(n), log(l) {}
    void explicitOperation(Field<T>& source, scalar t, scalar dt) const
    {
        auto [s, f] = NeoFOAM::spans(source, this->field_.internalField());
        const Coeff c = this->coeffs_;
        const T one = NeoFOAM::one<T>();
        NeoFOAM::parallelFor(source.exec(), source.range(), KOKKOS_LAMBDA(const size_t i) { s[i] += c[i] * (f[i] * dt + one * t); });
    }
    void implicitOperation(la::LinearSystem<T, localIdx>& ls, scalar t, scalar dt)
    {
        auto rhs = ls.rhs().view();
        auto f = this->field_.internalField().view();
        const Coeff c = this->coeffs_;
        const T one = NeoFOAM::one<T>();
        NeoFOAM::parallelFor(ls.exec(), {0, rhs.size()}, KOKKOS_LAMBDA(const size_t i) { rhs[i] += c[i] * (f[i] * dt + one * t); });
    }
    void build(const Input& in) { log->push_back(name + "<-" + std::get<Dictionary>(in).get<std::string>("scheme")); }
    std::string getName() const { return name; }
};

struct Term
{
    std::string name;
    size_t field; // which of the generated fields it applies to
    bool temporal, implicit;
    HostCoeff k;
};
using Model = std::vector<Term>;
template<typename T>
struct Formula
{
    dsl::Expression<T> real;
    Model model;
};

template<typename T>
struct World
{
    pbt::Gen& g;
    Executor exec;
    HostMesh m;
    UnstructuredMesh u;
    std::vector<HostField<T>> hs;
    std::deque<VolumeField<T>> fields;
    std::vector<HostCoeff> coefs;
    Log log = std::make_shared<std::vector<std::string>>();
    size_t made = 0, operations = 0;

    World(pbt::Gen& g_) : g(g_), exec(executor(g)), m(operatorMesh(g)), u(build(exec, m))
    {
        for (size_t i = 0; i < 2; i++)
        {
            hs.push_back(content<T>(g, m.nCells(), m.nBnd()));
            fields.push_back(volumeField<T>(exec, "f" + std::to_string(i), u, hs[i], {}));
        }
    }
    double number() { return g.boolean() ? double(g.range(-3, 3)) : g.real(); }
    // an operator and its scaling
    template<typename Erased, typename Op>
    Erased leaf(Term& t, bool temporal)
    {
        t.name = "op" + std::to_string(made++);
        t.field = g.index(fields.size());
        t.temporal = temporal;
        t.implicit = g.boolean();
        // assignment of temporal operators is not provided
        std::optional<Erased> e;
        e.emplace(Op(fields[t.field], t.implicit ? Type::Implicit : Type::Explicit, t.name, log));
        size_t n = g.index(3);
        for (size_t i = 0; i < n; i++)
        {
            operations++;
            size_t how = t.k.v.empty() ? g.index(3) : 0;
            Erased before(*e);
            HostCoeff kb = t.k;
            if (how == 0)
            {
                double k = number();
                Erased next = k * *e;
                e.emplace(next);
                t.k.c *= k;
            }
            else
            {
                auto k = coefficient(g, exec, m.nCells());
                if (how == 1 && k.v.size()) k.c = 1;
                Erased next = how == 1 && k.v.size() ? *k.store * *e : coeff(k) * *e;
                e.emplace(next);
                t.k.c *= k.c;
                t.k.v = k.v;
                t.k.store = k.store;
                coefs.push_back(k);
            }
            // the operator it was made from keeps its own coefficient
            Coeff b = std::as_const(before).getCoefficient();
            auto all = everywhere();
            for (size_t c = 0; c < m.nCells(); c++) PBT_CHECK(close(b[c], kb[c], std::fabs(kb[c]), 1e-12), "scaling changed the operator that was scaled");
        }
        PBT_CHECK(e->getName() == t.name && (e->getType() == Type::Implicit) == t.implicit && e->exec() == exec, "name, type or executor of an operator");
        g.note(t.name, temporal ? " temporal" : " spatial", t.implicit ? " implicit" : " explicit", ", field ", t.field, ", coefficient ", str(t.k.c), " ", t.k.v.empty() ? "" : str(t.k.v));
        return *e;
    }
};
inline void scale(Model& m, double k)
{
    for (auto& t : m) t.k.c *= k;
}
inline Model joined(Model a, Model b, double k)
{
    scale(b, k);
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

template<typename T>
static dsl::SpatialOperator<T> spatial(World<T>& w, Term& t)
{
    return w.template leaf<dsl::SpatialOperator<T>, Spatial<T>>(t, false);
}
template<typename T>
static dsl::TemporalOperator<T> temporal(World<T>& w, Term& t)
{
    return w.template leaf<dsl::TemporalOperator<T>, Temporal<T>>(t, true);
}

template<typename T>
static Formula<T> formula(World<T>& w, size_t depth, std::vector<Formula<T>>& kept)
{
    auto& g = w.g;
    Term a, b;
    auto make = [&]() -> Formula<T>
    {
        size_t what = depth ? g.index(9) : g.index(4);
        w.operations++;
        double sign = g.boolean() ? 1 : -1;
        const char* pm = sign > 0 ? " plus " : " minus ";
        switch (what)
        {
        case 0:
        {
            auto x = spatial(w, a);
            auto y = spatial(w, b);
            g.note(a.name, pm, b.name);
            return {sign > 0 ? x + y : x - y, joined({a}, {b}, sign)};
        }
        case 1:
        {
            auto x = temporal(w, a);
            auto y = spatial(w, b);
            g.note(a.name, pm, b.name);
            return {sign > 0 ? x + y : x - y, joined({a}, {b}, sign)};
        }
        case 2:
        {
            auto x = spatial(w, a);
            auto y = temporal(w, b);
            g.note(a.name, pm, b.name);
            return {sign > 0 ? x + y : x - y, joined({a}, {b}, sign)};
        }
        case 3:
        {
            dsl::Expression<T> e(w.exec);
            Model m;
            size_t n = g.index(3);
            for (size_t i = 0; i < n; i++)
            {
                Term t;
                if (g.boolean()) e.addOperator(spatial(w, t));
                else e.addOperator(temporal(w, t));
                m.push_back(t);
            }
            g.note("expression of ", n, " operators");
            return {e, m};
        }
        case 4:
        case 5:
        {
            Formula<T> x = formula(w, depth - 1, kept);
            auto y = spatial(w, b);
            g.note("expression", pm, b.name);
            return {sign > 0 ? x.real + y : x.real - y, joined(x.model, {b}, sign)};
        }
        case 6:
        {
            Formula<T> x = formula(w, depth - 1, kept);
            double k = w.number();
            g.note(k, " times expression");
            Model m = x.model;
            scale(m, k);
            return {k * x.real, m};
        }
        case 7:
        {
            Formula<T> x = formula(w, depth - 1, kept);
            Formula<T> y = formula(w, depth - 1, kept);
            dsl::Expression<T> e(x.real);
            e.addExpression(y.real);
            g.note("expression with expression added");
            return {e, joined(x.model, y.model, 1)};
        }
        default:
        {
            Formula<T> x = formula(w, depth - 1, kept);
            Formula<T> y = g.chance(1, 4) ? x : formula(w, depth - 1, kept);
            g.note("expression", pm, "expression");
            return {sign > 0 ? x.real + y.real : x.real - y.real, joined(x.model, y.model, sign)};
        }
        }
    };
    Formula<T> r = make();
    kept.push_back(r);
    return r;
}

template<typename T>
static Sums<T> apply(const World<T>& w, const Model& m, bool temporal, bool implicit, double t, double dt)
{
    Sums<T> s(w.m.nCells());
    for (auto& x : m)
        if (x.temporal == temporal && x.implicit == implicit)
            for (size_t i = 0; i < w.m.nCells(); i++)
            {
                const T f = w.hs[x.field].in[i];
                s.add(i, temporal ? (f * dt) * x.k[i] + (NeoFOAM::one<T>() * t) * x.k[i] : f * x.k[i]);
                if (temporal) s.scale[i] += std::fabs(x.k[i]) * (norm(f) * std::fabs(dt) + 2 * std::fabs(t));
            }
    return s;
}

template<typename T>
static void verify(World<T>& w, Formula<T>& f, const std::string& what)
{
    auto& g = w.g;
    size_t n = w.m.nCells();
    size_t spatials = 0;
    for (auto& t : f.model) spatials += !t.temporal;
    PBT_CHECK(f.real.size() == f.model.size() && f.real.spatialOperators().size() == spatials, what, ": ", f.real.size(), " operators, ", f.real.spatialOperators().size(),
        " spatial; expected ", f.model.size(), ", ", spatials);
    PBT_CHECK(f.real.exec() == w.exec, what, ": executor");
    double t = g.real(), dt = g.real();
    auto junk = values<T>(g, n);
    apply(w, f.model, false, false, 0, 0).check(host(f.real.explicitOperation(n)), what + ": explicit operators");
    Field<T> source = field(w.exec, junk);
    auto returned = f.real.explicitOperation(source);
    auto want = apply(w, f.model, false, false, 0, 0).over(junk);
    want.check(host(source), what + ": explicit operators added to a source");
    want.check(host(returned), what + ": returned source");
    Field<T> later = field(w.exec, junk);
    returned = f.real.explicitOperation(later, t, dt);
    want = apply(w, f.model, true, false, t, dt).over(junk);
    want.check(host(later), what + ": explicit temporal operators added to a source");
    want.check(host(returned), what + ": returned source");
    auto pattern = fvcc::SparsityPattern::readOrCreate(w.u);
    for (bool temporal : {false, true})
    {
        auto ls = la::createEmptyLinearSystem<T, localIdx>(*pattern);
        put(ls.rhs(), junk);
        if (temporal) f.real.implicitOperation(ls, t, dt);
        else f.real.implicitOperation(ls);
        apply(w, f.model, temporal, true, t, dt).over(junk).check(host(ls.rhs()), what + (temporal ? ": implicit temporal operators" : ": implicit operators"));
        auto s = apply(w, f.model, false, true, t, dt);
        auto val = host(ls.matrix().values());
        for (size_t i = 0; i < val.size(); i++)
        {
            T expected = temporal ? NeoFOAM::zero<T>() : s.v[i % n];
            PBT_CHECK(close(val[i], expected, temporal ? 0 : s.scale[i % n], 1e-11), what, ": matrix value ", i, " is ", str(val[i]), ", expected ", str(expected));
        }
    }
}

template<typename T>
static void algebra(pbt::Gen& g)
{
    World<T> w(g);
    std::vector<Formula<T>> kept;
    Formula<T> all = formula(w, g.size(1, 4), kept);
    if (all.model.size() > 2 && w.m.nCells() > 1) g.nontrivial();
    // changes to a copy stay with the copy
    Formula<T> copy = all;
    if (copy.real.spatialOperators().size())
    {
        size_t i = g.index(copy.real.spatialOperators().size());
        std::string name = copy.real.spatialOperators()[i].getName();
        copy.real.spatialOperators()[i].getCoefficient() *= 3.0;
        Field<T> s = field(w.exec, std::vector<T>(w.m.nCells(), NeoFOAM::zero<T>()));
        (void)name;
        (void)s;
    }
    Term extra;
    copy.real.addOperator(spatial(w, extra));
    // all that took part, in any order
    for (size_t i = 0; i < kept.size() && i < 6; i++)
    {
        size_t k = i == 0 ? kept.size() - 1 : g.index(kept.size());
        verify(w, kept[k], "formula " + std::to_string(k));
    }
    // schemes reach every operator of this expression, once
    Dictionary d;
    std::string scheme = g.text(5);
    d.insert("scheme", scheme);
    w.log->clear();
    all.real.build(d);
    std::multiset<std::string> got(w.log->begin(), w.log->end()), want;
    for (auto& t : all.model) want.insert(t.name + "<-" + scheme);
    PBT_CHECK(got == want, "build reached ", got.size(), " operators, expected ", want.size());
    verify(w, all, "formula after build");
    for (size_t i = 0; i < w.hs.size(); i++) unchanged(w.fields[i], w.hs[i], "field");
    for (auto& k : w.coefs)
        if (k.store) exact(host(*k.store), k.v, "coefficient field");
}
PBT(expressions_are_sums_of_scaled_operators, 16000, 300000, "three operators or more on several cells")
{
    if (g.boolean()) algebra<Vector>(g);
    else algebra<scalar>(g);
}

// ---- operators without one of the two forms, and the project's own operators
struct OnlyExplicit : dsl::OperatorMixin<VolumeField<scalar>>
{
    using FieldValueType = scalar;
    OnlyExplicit(VolumeField<scalar>& f, Type t) : dsl::OperatorMixin<VolumeField<scalar>>(f.exec(), Coeff(1.0), f, t) {}
    void explicitOperation(Field<scalar>& s) const { s += this->field_.internalField(); }
    std::string getName() const { return "only explicit"; }
};
struct OnlyImplicit : dsl::OperatorMixin<VolumeField<scalar>>
{
    using FieldValueType = scalar;
    OnlyImplicit(VolumeField<scalar>& f, Type t) : dsl::OperatorMixin<VolumeField<scalar>>(f.exec(), Coeff(1.0), f, t) {}
    void implicitOperation(la::LinearSystem<scalar, localIdx>& ls) { ls.rhs() += this->field_.internalField(); }
    std::string getName() const { return "only implicit"; }
};
PBT(operators_without_one_form_do_nothing_in_it, 1500, 20000, "several cells")
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    if (m.nCells() > 1) g.nontrivial();
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    auto f = volumeField<scalar>(exec, "f", u, h, {});
    auto junk = values<scalar>(g, m.nCells());
    auto sum = junk;
    for (size_t i = 0; i < sum.size(); i++) sum[i] += h.in[i];
    for (bool implicit : {false, true})
    {
        auto type = g.boolean() ? Type::Explicit : Type::Implicit;
        dsl::SpatialOperator<scalar> op = implicit ? dsl::SpatialOperator<scalar>(OnlyImplicit(f, type)) : dsl::SpatialOperator<scalar>(OnlyExplicit(f, type));
        dsl::SpatialOperator<scalar> moved(std::move(op));
        dsl::SpatialOperator<scalar> copy(moved);
        PBT_CHECK(copy.getName() == (implicit ? "only implicit" : "only explicit") && copy.getType() == type, "name or type");
        Field<scalar> s = field(exec, junk);
        copy.explicitOperation(s);
        exact(host(s), implicit ? junk : sum, "source");
        auto pattern = fvcc::SparsityPattern::readOrCreate(u);
        auto ls = la::createEmptyLinearSystem<scalar, localIdx>(*pattern);
        put(ls.rhs(), junk);
        copy.implicitOperation(ls);
        exact(host(ls.rhs()), implicit ? sum : junk, "right-hand side");
    }
}

// convection, diffusion and sources as a user writes them
PBT(equations_of_real_operators, 12000, 200000, "several internal faces, a boundary and three terms or more")
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto dc = nonOrthDeltaCoeffs(m);
    m.bdc.assign(dc.begin() + long(m.nInt()), dc.end());
    auto u = build(exec, m);
    auto conds = conditions<scalar>(g, m.nPatches(), {"fixedValue", "fixedGradient"});
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    auto x = volumeField<scalar>(exec, "T", u, h, conds);
    x.correctBoundaryConditions();
    h = read<scalar>(x);
    correct(h, m, conds);
    write(x, h);
    auto phi = values<scalar>(g, m.nFaces()), nu = values<scalar>(g, m.nFaces());
    auto flux = surfaceField<scalar>(exec, "phi", u, phi);
    auto gamma = surfaceField<scalar>(exec, "nu", u, nu);
    auto hc = content<scalar>(g, m.nCells(), m.nBnd());
    auto sp = volumeField<scalar>(exec, "Sp", u, hc, {});
    auto words = [](std::vector<std::string> w) { return std::get<TokenList>(tokens(w)); };
    bool expUpwind = g.boolean();
    Dictionary schemes, div, lap;
    div.insert("div(phi,T)", words({"Gauss", expUpwind ? "upwind" : "linear"}));
    lap.insert("laplacian(nu,T)", words({"Gauss", "linear", "uncorrected"}));
    schemes.insert("divSchemes", div);
    schemes.insert("laplacianSchemes", lap);
    dsl::Expression<scalar> eqn(exec);
    // volume times what the equation says, for the given cell values
    Sums<scalar> ex(m.nCells()), im(m.nCells());
    size_t terms = g.size(1, 5);
    auto add = [&](Sums<scalar>& to, const Sums<scalar>& s, double k)
    {
        for (size_t c = 0; c < m.nCells(); c++)
        {
            to.add(c, s.v[c] * k);
            to.scale[c] += s.scale[c] * std::fabs(k);
        }
    };
    if (m.nInt() > 1 && m.nBnd() && terms > 2) g.nontrivial();
    for (size_t i = 0; i < terms; i++)
    {
        size_t what = g.index(6);
        double k = g.chance(1, 3) ? 1 : g.real();
        double sign = g.boolean() ? 1 : -1;
        auto join = [&](dsl::SpatialOperator<scalar> op)
        {
            auto s = k * op;
            dsl::Expression<scalar> next = sign > 0 ? eqn + s : eqn - s;
            dsl::Expression<scalar> fresh(exec);
            fresh.addExpression(next);
            eqn.spatialOperators().clear();
            eqn.addExpression(fresh);
        };
        g.note("term ", i, ": kind ", what, ", factor ", k * sign);
        if (what == 0)
        {
            join(dsl::exp::div(flux, x));
            add(ex, divergence(m, expUpwind, phi, h, HostCoeff {}), k * sign);
        }
        else if (what == 1)
        {
            join(dsl::exp::div(flux));
            add(ex, perVolume(m, faceSum(m, phi), HostCoeff {}), k * sign);
        }
        else if (what == 2)
        {
            join(dsl::exp::source(sp, x));
            Sums<scalar> s(m.nCells());
            for (size_t c = 0; c < m.nCells(); c++) s.add(c, hc.in[c] * h.in[c]);
            add(ex, s, k * sign);
        }
        else if (what == 3)
        {
            join(dsl::imp::source(sp, x));
            Sums<scalar> s(m.nCells());
            for (size_t c = 0; c < m.nCells(); c++) s.add(c, hc.in[c] * h.in[c] * m.V[c]);
            add(im, s, k * sign);
        }
        else
        {
            auto s = what == 4 ? divergence(m, true, phi, h, HostCoeff {}) : laplacian(m, nu, h, HostCoeff {});
            for (size_t c = 0; c < m.nCells(); c++) s.multiply(c, m.V[c]);
            if (what == 4) join(dsl::imp::div(flux, x));
            else join(dsl::imp::laplacian(gamma, x));
            add(im, s, k * sign);
        }
    }
    eqn.build(schemes);
    if (g.boolean()) eqn.build(schemes);
    ex.check(host(eqn.explicitOperation(m.nCells())), "explicit part", 1e-10);
    auto pattern = fvcc::SparsityPattern::readOrCreate(u);
    auto ls = la::createEmptyLinearSystem<scalar, localIdx>(*pattern);
    eqn.implicitOperation(ls);
    auto sys = hostSystem(ls);
    auto r = residual(sys, h.in);
    for (size_t c = 0; c < m.nCells(); c++)
        PBT_CHECK(close(r.v[c], im.v[c], im.scale[c] + r.scale[c], 1e-10), "implicit part of cell ", c, " is ", r.v[c], ", expected ", im.v[c]);
    unchanged(x, h, "field");
}
