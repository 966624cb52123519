// C39: simulations of transport - conservation, bounds, and what the answer must not depend on.
#include "equations.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"

// ---- a solver that solves: elimination with pivots, in long double
class DenseSolver : public la::SolverFactory::template Register<DenseSolver>
{
    using Base = la::SolverFactory::template Register<DenseSolver>;

public:
    DenseSolver(Executor exec, const Dictionary&) : Base(exec) {}
    static std::string name() { return "dense"; }
    static std::string doc() { return "elimination"; }
    static std::string schema() { return "none"; }
    virtual void solve(const la::LinearSystem<scalar, localIdx>& ls, Field<scalar>& x) const final
    {
        auto row = host(ls.matrix().rowPtrs()), col = host(ls.matrix().colIdxs());
        auto val = host(ls.matrix().values()), rhs = host(ls.rhs());
        size_t n = rhs.size();
        std::vector<std::vector<long double>> a(n, std::vector<long double>(n + 1, 0.0L));
        for (size_t i = 0; i < n; i++)
        {
            for (size_t k = row[i]; k < row[i + 1]; k++) a[i][col[k]] += val[k];
            a[i][n] = rhs[i];
        }
        for (size_t k = 0; k < n; k++)
        {
            size_t p = k;
            for (size_t i = k; i < n; i++)
                if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
            std::swap(a[k], a[p]);
            PBT_CHECK(a[k][k] != 0.0L, "the system of the equation is singular");
            for (size_t i = k + 1; i < n; i++)
            {
                long double q = a[i][k] / a[k][k];
                if (q != 0.0L)
                    for (size_t j = k; j <= n; j++) a[i][j] -= q * a[k][j];
            }
        }
        std::vector<scalar> y(n);
        std::vector<long double> z(n);
        for (size_t i = n; i-- > 0;)
        {
            long double s = a[i][n];
            for (size_t j = i + 1; j < n; j++) s -= a[i][j] * z[j];
            y[i] = double(z[i] = s / a[i][i]);
        }
        put(x, y);
    }
    virtual std::unique_ptr<la::SolverFactory> clone() const final { return std::make_unique<DenseSolver>(*this); }
};

enum Scheme
{
    forwardEuler,
    rungeKutta,
    backwardEuler
};
static const char* schemeName(Scheme s) { return s == forwardEuler ? "forwardEuler" : s == rungeKutta ? "Runge-Kutta" : "backwardEuler"; }

// a simulation of  ddt(T) + kd div(phi, T) - kl laplacian(nu, T) + ks Sp T + ki div(inflow) = 0
struct Simulation
{
    HostMesh m;
    std::vector<Condition<scalar>> conds;
    std::vector<scalar> phi, nu, sp, T, release; // release: a face field of which the divergence is a source
    bool upwind = true;
    Scheme scheme = forwardEuler;
    double kd = 0, kl = 0, ks = 0, kr = 0;
    std::vector<scalar> dts;
};
using States = std::vector<HostField<scalar>>; // before the first step, after each

static States run(const Executor& exec, const Simulation& s)
{
    Simulation sim = s;
    auto u = build(exec, sim.m);
    HostField<scalar> h;
    size_t nb = sim.m.nBnd();
    h.in = sim.T;
    h.value = h.refValue = h.refGrad = h.fraction = std::vector<scalar>(nb, 0.0);
    auto flux = surfaceField<scalar>(exec, "phi", u, sim.phi);
    auto gamma = surfaceField<scalar>(exec, "nu", u, sim.nu);
    auto release = surfaceField<scalar>(exec, "release", u, sim.release);
    HostField<scalar> hs = h;
    hs.in = sim.sp;
    auto sp = volumeField<scalar>(exec, "Sp", u, hs, {});
    Database db;
    auto& fields = fvcc::FieldCollection::instance(db, "fields");
    auto& T = fields.template registerField<VolumeField<scalar>>(CreateField<scalar> {"T", u, h, sim.conds});
    T.correctBoundaryConditions();
    Dictionary schemes, solution, ddt, div, lap;
    ddt.insert("type", std::string(schemeName(sim.scheme)));
    ddt.insert("Runge-Kutta-Method", std::string("Forward-Euler"));
    div.insert("div(phi,T)", std::get<TokenList>(tokens({"Gauss", sim.upwind ? "upwind" : "linear"})));
    lap.insert("laplacian(nu,T)", std::get<TokenList>(tokens({"Gauss", "linear", "uncorrected"})));
    schemes.insert("ddtSchemes", ddt);
    schemes.insert("divSchemes", div);
    schemes.insert("laplacianSchemes", lap);
    solution.insert("solver", std::string("dense"));
    dsl::Expression<scalar> eqn(exec);
    bool implicit = sim.scheme == backwardEuler;
    eqn.addOperator(dsl::imp::ddt(T));
    if (sim.kd != 0) eqn.addOperator(sim.kd * (implicit ? dsl::imp::div(flux, T) : dsl::exp::div(flux, T)));
    if (sim.kl != 0)
        eqn.addOperator(-sim.kl * (implicit ? dsl::imp::laplacian(gamma, T) : dsl::SpatialOperator<scalar>(fvcc::LaplacianOperator<scalar>(Type::Explicit, gamma, T))));
    if (sim.ks != 0) eqn.addOperator(sim.ks * (implicit ? dsl::imp::source(sp, T) : dsl::exp::source(sp, T)));
    if (sim.kr != 0) eqn.addOperator(sim.kr * dsl::exp::div(release));
    States states {read<scalar>(T)};
    double t = 0;
    for (double dt : sim.dts)
    {
        dsl::solve(eqn, T, t, dt, schemes, solution);
        t += dt;
        states.push_back(read<scalar>(T));
    }
    return states;
}
static double magnitude(const States& s)
{
    double x = 0;
    for (auto& h : s) x = std::max({x, num::magnitude(h.in), num::magnitude(h.value)});
    return x;
}

// ---- generated simulations
static double number(pbt::Gen& g) { return g.boolean() ? double(g.range(-8, 8)) : double(g.range(-8000, 8000)) / 1000; }
static std::vector<scalar> numbers(pbt::Gen& g, size_t n)
{
    std::vector<scalar> v;
    for (size_t i = 0; i < n; i++) v.push_back(number(g));
    return v;
}
// what flows through a cell leaves it again: streams from the boundary to the boundary, or round in circles
static std::vector<scalar> divergenceFree(pbt::Gen& g, const HostMesh& m)
{
    std::vector<std::vector<size_t>> faces(m.nCells());
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        faces[size_t(m.own[f])].push_back(f);
        if (f < m.nInt()) faces[size_t(m.nei[f])].push_back(f);
    }
    std::vector<scalar> phi(m.nFaces(), 0.0);
    size_t streams = g.size(0, 5);
    for (size_t k = 0; k < streams && m.nFaces(); k++)
    {
        double q = double(1 + g.below(32)) / 8;
        size_t first = g.index(m.nFaces()), c = size_t(m.own[first]), came = m.nFaces(), from = c;
        bool open = first >= m.nInt();
        std::vector<std::pair<size_t, double>> path;
        if (open)
        {
            path.push_back({first, -q});
            came = first;
        }
        bool done = false;
        for (size_t i = 0; i < 24 && !done; i++)
        {
            std::vector<size_t> next;
            for (size_t f : faces[c])
                if (f != came && (open || f < m.nInt())) next.push_back(f);
            if (next.empty()) break;
            size_t f = g.pick(next);
            path.push_back({f, size_t(m.own[f]) == c ? q : -q});
            came = f;
            if (f >= m.nInt()) done = true;
            else
            {
                c = size_t(size_t(m.own[f]) == c ? m.nei[f] : m.own[f]);
                if (!open && c == from) done = true;
            }
        }
        if (done)
            for (auto [f, x] : path) phi[f] += x;
    }
    return phi;
}
struct Sides
{
    std::vector<char> out; // patches with a face where something flows out
};
static Sides sides(const Simulation& s)
{
    Sides r;
    for (size_t p = 0; p < s.m.nPatches(); p++)
    {
        bool out = false;
        for (size_t b = s.m.offset[p]; b < s.m.offset[p + 1]; b++) out = out || s.phi[s.m.nInt() + b] > 0;
        r.out.push_back(out);
    }
    return r;
}
static void shape(pbt::Gen& g, Simulation& s)
{
    s.m = operatorMesh(g);
    auto dc = nonOrthDeltaCoeffs(s.m);
    s.m.bdc.assign(dc.begin() + long(s.m.nInt()), dc.end());
    for (size_t f = 0; f < s.m.nFaces(); f++) s.nu.push_back(g.chance(1, 8) ? 0.0 : g.positive(0.1, 3));
    s.T = numbers(g, s.m.nCells());
    s.sp.assign(s.m.nCells(), 0.0);
    s.release.assign(s.m.nFaces(), 0.0);
}
// the longest step for which each new value is a mean of old ones
static double stable(const Simulation& s, double fraction = 1.0)
{
    auto dc = nonOrthDeltaCoeffs(s.m);
    std::vector<scalar> rate(s.m.nCells());
    for (size_t f = 0; f < s.m.nFaces(); f++)
    {
        double a = s.kd * s.phi[f], d = s.kl * s.nu[f] * s.m.magSf(f) * dc[f];
        rate[size_t(s.m.own[f])] += std::max(a, 0.0) + d;
        if (f < s.m.nInt()) rate[size_t(s.m.nei[f])] += std::max(-a, 0.0) + d;
    }
    double most = 0;
    for (size_t c = 0; c < s.m.nCells(); c++) most = std::max(most, rate[c] / s.m.V[c]);
    return most > 0 ? fraction / most : 1.0;
}
static void steps(pbt::Gen& g, Simulation& s)
{
    size_t n = g.size(1, 4);
    double most = stable(s);
    bool far = s.scheme == backwardEuler;
    for (size_t i = 0; i < n; i++)
    {
        double dt = most * double(1 + g.below(64)) / 64;
        if (far && g.boolean()) dt *= double(uint64_t(1) << g.range(0, 5));
        if (s.scheme == rungeKutta)
            // the integrator insists on t + dt == its own time
            dt = std::ldexp(1.0, int(std::floor(std::log2(most))) - int(g.below(3)));
        s.dts.push_back(s.scheme == rungeKutta && i ? s.dts[0] : dt);
    }
    g.note(schemeName(s.scheme), s.upwind ? " upwind" : " linear", ", factors ", s.kd, " ", s.kl, " ", s.ks, " ", s.kr, ", steps ", str(s.dts), ", flux ", str(s.phi), ", T ", str(s.T));
}
// any equation of these terms that can be solved
static Simulation any(pbt::Gen& g)
{
    Simulation s;
    shape(g, s);
    s.scheme = Scheme(g.index(3));
    bool implicit = s.scheme == backwardEuler;
    s.upwind = implicit || g.boolean();
    s.phi = implicit || g.boolean() ? divergenceFree(g, s.m) : numbers(g, s.m.nFaces());
    if (!g.chance(1, 5)) s.kd = g.boolean() ? 1.0 : g.positive(0.1, 3);
    if (!g.chance(1, 5)) s.kl = g.boolean() ? 1.0 : g.positive(0.1, 3);
    auto side = sides(s);
    std::string c;
    for (size_t p = 0; p < s.m.nPatches(); p++)
    {
        // the implicit equation of a cell with an outlet of given value can lack a solution
        bool zero = implicit && side.out[p];
        std::string type = zero || g.boolean() ? "fixedGradient" : implicit || g.boolean() ? "fixedValue" : "extrapolated";
        s.conds.push_back({type, number(g)});
        c += " " + type + " " + str(s.conds.back().value);
    }
    if (g.chance(1, 3))
    {
        s.ks = 1;
        for (auto& x : s.sp) x = g.positive(0.01, 1);
    }
    if (g.chance(1, 3))
    {
        s.kr = 1;
        s.release = numbers(g, s.m.nFaces());
    }
    g.note("conditions", c);
    steps(g, s);
    return s;
}

// ---- conservation
PBT(what_the_boundary_lets_in_is_what_the_cells_gain, 8000, 200000, "several internal faces, a boundary, convection or diffusion")
{
    Simulation s = any(g);
    s.ks = 0;
    if (s.m.nInt() > 1 && s.m.nBnd() && (s.kd != 0 || s.kl != 0)) g.nontrivial();
    auto states = run(executor(g), s);
    auto dc = nonOrthDeltaCoeffs(s.m);
    bool implicit = s.scheme == backwardEuler;
    for (size_t i = 0; i < s.dts.size(); i++)
    {
        const auto &a = states[i], &b = states[i + 1], &at = implicit ? b : a;
        long double gain = 0, through = 0, scale = 0;
        for (size_t c = 0; c < s.m.nCells(); c++)
        {
            gain += s.m.V[c] * ((long double)b.in[c] - a.in[c]);
            scale += s.m.V[c] * (std::fabs(a.in[c]) + std::fabs(b.in[c]));
        }
        for (size_t f = 0; f < s.m.nFaces(); f++)
        {
            double n = f < s.m.nInt() ? std::max(std::fabs(at.in[size_t(s.m.own[f])]), std::fabs(at.in[size_t(s.m.nei[f])])) : std::fabs(at.value[f - s.m.nInt()]);
            scale += s.dts[i] * (std::fabs(s.kd * s.phi[f]) * n + std::fabs(s.kl * s.nu[f]) * s.m.magSf(f) * dc[f] * n + std::fabs(s.kr * s.release[f]));
            if (f < s.m.nInt()) continue;
            double Tb = at.value[f - s.m.nInt()], Tc = at.in[size_t(s.m.own[f])];
            through += s.dts[i] * (s.kd * s.phi[f] * (long double)Tb - s.kl * s.nu[f] * s.m.magSf(f) * dc[f] * ((long double)Tb - Tc) + s.kr * s.release[f]);
        }
        PBT_CHECK(std::fabs(double(gain + through)) <= 1e-10 * double(scale) + 1e-300, "step ", i, ": the cells gain ", double(gain), ", the boundary lets in ", double(-through));
    }
}

// ---- nothing happens to a uniform field that flows along
PBT(uniform_fields_stay_uniform, 6000, 150000, "several internal faces with a flux or a diffusion")
{
    Simulation s;
    shape(g, s);
    s.scheme = Scheme(g.index(3));
    s.upwind = s.scheme == backwardEuler || g.boolean();
    s.phi = divergenceFree(g, s.m);
    if (!g.chance(1, 5)) s.kd = g.boolean() ? 1.0 : g.positive(0.1, 3);
    if (!g.chance(1, 5)) s.kl = g.boolean() ? 1.0 : g.positive(0.1, 3);
    double value = number(g);
    s.T.assign(s.m.nCells(), value);
    auto side = sides(s);
    for (size_t p = 0; p < s.m.nPatches(); p++)
    {
        bool zero = s.scheme == backwardEuler && side.out[p];
        size_t k = zero ? 0 : g.index(s.scheme == backwardEuler ? 2 : 3);
        s.conds.push_back(k == 0 ? Condition<scalar> {"fixedGradient", 0.0} : k == 1 ? Condition<scalar> {"fixedValue", value} : Condition<scalar> {"extrapolated", 0.0});
    }
    steps(g, s);
    size_t moving = 0;
    for (size_t f = 0; f < s.m.nInt(); f++) moving += s.kd * s.phi[f] != 0 || s.kl * s.nu[f] != 0;
    if (moving > 1) g.nontrivial();
    auto states = run(executor(g), s);
    for (size_t i = 0; i < states.size(); i++)
        for (size_t c = 0; c < s.m.nCells(); c++)
            PBT_CHECK(std::fabs(states[i].in[c] - value) <= 1e-10 * std::fabs(value), "after ", i, " steps cell ", c, " is ", str(states[i].in[c]), ", the field was uniform at ", str(value));
}

// ---- upwind convection and diffusion make no new extrema
PBT(no_new_extrema, 8000, 200000, "several internal faces with a flux or a diffusion, cells of different values")
{
    Simulation s;
    shape(g, s);
    s.scheme = Scheme(g.index(3));
    s.phi = divergenceFree(g, s.m);
    if (!g.chance(1, 5)) s.kd = g.boolean() ? 1.0 : g.positive(0.1, 3);
    if (!g.chance(1, 3)) s.kl = g.boolean() ? 1.0 : g.positive(0.1, 3);
    bool implicit = s.scheme == backwardEuler;
    auto side = sides(s);
    for (size_t p = 0; p < s.m.nPatches(); p++)
    {
        size_t k = side.out[p] ? g.index(implicit ? 1 : 2) : g.index(3);
        s.conds.push_back(k == 0 ? Condition<scalar> {"fixedGradient", 0.0} : k == 1 ? Condition<scalar> {"extrapolated", 0.0} : Condition<scalar> {"fixedValue", number(g)});
    }
    steps(g, s);
    if (s.kl == 0 && !implicit && s.scheme != rungeKutta && s.kd == 1.0 && g.boolean())
    {
        // a Courant number of at most one, as the library computes it
        Executor exec = executor(0);
        auto u = build(exec, s.m);
        auto flux = surfaceField<scalar>(exec, "phi", u, s.phi);
        double one = fvcc::computeCoNum(flux, 1.0);
        if (one > 0)
            for (double& dt : s.dts) dt = double(1 + g.below(64)) / 64 / one;
        g.label("step from the Courant number");
    }
    size_t moving = 0;
    for (size_t f = 0; f < s.m.nInt(); f++) moving += (s.kd * s.phi[f] != 0 || s.kl * s.nu[f] != 0) && s.T[size_t(s.m.own[f])] != s.T[size_t(s.m.nei[f])];
    if (moving > 1) g.nontrivial();
    auto states = run(executor(g), s);
    for (size_t i = 1; i < states.size(); i++)
    {
        const auto& a = states[i - 1];
        double lo = a.in[0], hi = lo;
        for (double x : a.in) lo = std::min(lo, x), hi = std::max(hi, x);
        for (size_t p = 0; p < s.m.nPatches(); p++)
            if (s.conds[p].type == "fixedValue" && s.m.offset[p + 1] > s.m.offset[p]) lo = std::min(lo, s.conds[p].value), hi = std::max(hi, s.conds[p].value);
        double slack = 1e-10 * (std::fabs(lo) + std::fabs(hi));
        for (size_t c = 0; c < s.m.nCells(); c++)
            PBT_CHECK(states[i].in[c] >= lo - slack && states[i].in[c] <= hi + slack, "step ", i, ": cell ", c, " becomes ", str(states[i].in[c]), ", all values were between ", str(lo), " and ", str(hi));
    }
}

// ---- what the answer must not depend on
static void agree(const std::vector<scalar>& a, const std::vector<scalar>& b, double scale, const std::string& what)
{
    near(a, b, scale, what, 1e-9);
}
PBT(numbering_does_not_matter, 6000, 150000, "several internal faces, a boundary, convection or diffusion")
{
    Simulation s = any(g);
    const HostMesh& m = s.m;
    auto cell = g.permutation(m.nCells()); // old cell of a new one
    auto face = g.permutation(m.nInt());
    auto patch = g.permutation(m.nPatches());
    std::vector<size_t> now(m.nCells());
    for (size_t c = 0; c < m.nCells(); c++) now[cell[c]] = c;
    Simulation r = s;
    HostMesh& n = r.m;
    n = HostMesh {};
    n.points = m.points;
    r.phi.clear();
    r.nu.clear();
    r.T.clear();
    r.sp.clear();
    r.release.clear();
    r.conds.clear();
    std::vector<size_t> was;
    for (size_t c : cell)
    {
        n.V.push_back(m.V[c]);
        n.C.push_back(m.C[c]);
        r.T.push_back(s.T[c]);
        r.sp.push_back(s.sp[c]);
    }
    // the project orders owner and neighbour by their numbers; either order has to do
    bool ordered = g.boolean();
    for (size_t f : face)
    {
        size_t o = now[size_t(m.own[f])], e = now[size_t(m.nei[f])];
        bool turn = ordered ? o > e : g.boolean();
        n.own.push_back(label(turn ? e : o));
        n.nei.push_back(label(turn ? o : e));
        double k = turn ? -1.0 : 1.0;
        n.Sf.push_back(m.Sf[f] * k);
        n.Cf.push_back(m.Cf[f]);
        r.phi.push_back(s.phi[f] * k);
        r.release.push_back(s.release[f] * k);
        r.nu.push_back(s.nu[f]);
    }
    for (size_t p : patch)
    {
        auto order = g.permutation(m.offset[p + 1] - m.offset[p]);
        for (size_t i : order)
        {
            size_t b = m.offset[p] + i, f = m.nInt() + b;
            was.push_back(b);
            n.own.push_back(label(now[size_t(m.own[f])]));
            n.Sf.push_back(m.Sf[f]);
            n.Cf.push_back(m.Cf[f]);
            n.bdc.push_back(m.bdc[b]);
            r.phi.push_back(s.phi[f]);
            r.release.push_back(s.release[f]);
            r.nu.push_back(s.nu[f]);
        }
        n.offset.push_back(n.offset.back() + localIdx(order.size()));
        r.conds.push_back(s.conds[p]);
    }
    if (m.nInt() > 1 && m.nBnd() && (s.kd != 0 || s.kl != 0)) g.nontrivial();
    auto a = run(executor(g), s), b = run(executor(g), r);
    double scale = magnitude(a) + magnitude(b);
    for (size_t i = 0; i < a.size(); i++)
    {
        std::vector<scalar> in, value;
        for (size_t c : cell) in.push_back(a[i].in[c]);
        for (size_t k : was) value.push_back(a[i].value[k]);
        agree(b[i].in, in, scale, "after " + std::to_string(i) + " steps with cells, faces and patches numbered otherwise: cell value");
        agree(b[i].value, value, scale, "after " + std::to_string(i) + " steps with cells, faces and patches numbered otherwise: boundary value");
    }
}

PBT(superposition, 6000, 150000, "several internal faces, a boundary, convection or diffusion")
{
    Simulation s = any(g);
    Simulation q = s;
    q.T = numbers(g, s.m.nCells());
    q.release = numbers(g, s.m.nFaces());
    for (auto& c : q.conds) c.value = number(g);
    double x = number(g), y = number(g);
    Simulation r = s;
    for (size_t c = 0; c < s.m.nCells(); c++) r.T[c] = x * s.T[c] + y * q.T[c];
    for (size_t f = 0; f < s.m.nFaces(); f++) r.release[f] = x * s.release[f] + y * q.release[f];
    for (size_t p = 0; p < s.conds.size(); p++) r.conds[p].value = x * s.conds[p].value + y * q.conds[p].value;
    if (s.m.nInt() > 1 && s.m.nBnd() && (s.kd != 0 || s.kl != 0)) g.nontrivial();
    auto a = run(executor(g), s), b = run(executor(g), q), c = run(executor(g), r);
    double scale = std::fabs(x) * magnitude(a) + std::fabs(y) * magnitude(b) + magnitude(c);
    for (size_t i = 0; i < a.size(); i++)
    {
        std::vector<scalar> want;
        for (size_t k = 0; k < s.m.nCells(); k++) want.push_back(x * a[i].in[k] + y * b[i].in[k]);
        agree(c[i].in, want, scale, "after " + std::to_string(i) + " steps " + str(x) + " times one solution plus " + str(y) + " times another");
    }
}

PBT(units_do_not_matter, 6000, 150000, "several internal faces, a boundary, convection or diffusion")
{
    Simulation s = any(g);
    int L = int(g.range(-6, 6)), t = int(g.range(-6, 6)), K = int(g.range(-6, 6));
    if (s.scheme == rungeKutta) t = std::min(t, 0);
    Simulation r = s;
    auto by = [](std::vector<scalar>& v, int e) { for (double& x : v) x = std::ldexp(x, e); };
    auto by3 = [](std::vector<Vector>& v, int e) { for (Vector& x : v) x = x * std::ldexp(1.0, e); };
    by(r.m.V, 3 * L);
    by3(r.m.C, L);
    by3(r.m.Cf, L);
    by3(r.m.Sf, 2 * L);
    by3(r.m.points, L);
    by(r.m.bdc, -L);
    by(r.phi, 3 * L - t);
    by(r.nu, 2 * L - t);
    by(r.sp, -t);
    by(r.release, 3 * L - t + K);
    by(r.dts, t);
    by(r.T, K);
    for (auto& c : r.conds) c.value = std::ldexp(c.value, c.type == "fixedGradient" ? K - L : K);
    if (s.m.nInt() > 1 && s.m.nBnd() && (s.kd != 0 || s.kl != 0) && L) g.nontrivial();
    auto a = run(executor(g), s), b = run(executor(g), r);
    double scale = magnitude(a);
    for (size_t i = 0; i < a.size(); i++)
    {
        by(b[i].in, -K);
        by(b[i].value, -K);
        agree(b[i].in, a[i].in, scale, "after " + std::to_string(i) + " steps in other units of length, time and T: cell value");
        agree(b[i].value, a[i].value, scale, "after " + std::to_string(i) + " steps in other units of length, time and T: boundary value");
    }
}

// ---- a simulation that is stopped and continued from its values gives the same
PBT(continuing_from_the_values, 4000, 100000, "two steps or more, convection or diffusion")
{
    Simulation s = any(g);
    auto a = run(executor(g), s);
    if (s.dts.size() > 1 && s.m.nInt() > 0 && (s.kd != 0 || s.kl != 0)) g.nontrivial();
    std::vector<scalar> dts = s.dts;
    double scale = magnitude(a);
    for (size_t i = 0; i < dts.size(); i++)
    {
        s.T = a[i].in;
        s.dts = {dts[i]};
        auto b = run(executor(g), s);
        agree(b[1].in, a[i + 1].in, scale, "step " + std::to_string(i) + " from the values of the step before");
    }
}
