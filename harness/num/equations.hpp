// Generated equations and their models; a solver that records what it is given.
#pragma once
#include <optional>
#include "operators.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"
using namespace num;
using NeoFOAM::Database;
using NeoFOAM::Document;
using dsl::Coeff;
namespace ti = NeoFOAM::timeIntegration;

template class ti::ForwardEuler<VolumeField<Vector>>;

template<typename T>
struct CreateField
{
    std::string name;
    const UnstructuredMesh& u;
    HostField<T> h;
    std::vector<Condition<T>> conds;
    fvcc::FieldDocument operator()(Database& db)
    {
        NeoFOAM::DomainField<T> d(u.exec(), field(u.exec(), h.in), u.boundaryMesh().offset());
        VolumeField<T> vf(u.exec(), name, u, d, boundaries<VolumeBoundary<T>, T>(u, conds), db, "", "");
        write(vf, h);
        return Document({{"name", vf.name}, {"timeIndex", std::int64_t(1)}, {"iterationIndex", std::int64_t(0)}, {"subCycleIndex", std::int64_t(0)}, {"field", vf}},
            fvcc::validateFieldDoc);
    }
};

// ---- a solver that records what it is given and answers with generated values
struct Recorded
{
    size_t calls = 0;
    HostSystem<scalar> system;
    std::vector<scalar> guess, answer;
    std::string marker;
    bool sameExec = false;
};
static Recorded& recorded()
{
    static Recorded r;
    return r;
}
class RecordingSolver : public la::SolverFactory::template Register<RecordingSolver>
{
    using Base = la::SolverFactory::template Register<RecordingSolver>;

public:
    RecordingSolver(Executor exec, const Dictionary& d) : Base(exec), marker(d.contains("marker") ? d.get<std::string>("marker") : "none") {}
    static std::string name() { return "recording"; }
    static std::string doc() { return "records"; }
    static std::string schema() { return "none"; }
    virtual void solve(const la::LinearSystem<scalar, localIdx>& ls, Field<scalar>& x) const final
    {
        auto& r = recorded();
        r.calls++;
        r.system = {host(ls.matrix().rowPtrs()), host(ls.matrix().colIdxs()), host(ls.matrix().values()), host(ls.rhs())};
        r.guess = host(x);
        r.marker = marker;
        r.sameExec = ls.exec() == exec_ && x.exec() == exec_;
        put(x, r.answer);
    }
    virtual std::unique_ptr<la::SolverFactory> clone() const final { return std::make_unique<RecordingSolver>(*this); }
    std::string marker;
};
template class NeoFOAM::RuntimeSelectionFactory<la::SolverFactory, NeoFOAM::Parameters<const Executor&, const Dictionary&>>;

// ---- equations: the harness's own operator, and the project's
template<typename T>
struct Spring : dsl::OperatorMixin<VolumeField<T>>
{
    using FieldValueType = T;
    Spring(VolumeField<T>& f) : dsl::OperatorMixin<VolumeField<T>>(f.exec(), Coeff(1.0), f, Type::Explicit) {}
    void explicitOperation(Field<T>& source) const
    {
        auto [s, f] = NeoFOAM::spans(source, this->field_.internalField());
        const Coeff c = this->coeffs_;
        NeoFOAM::parallelFor(source.exec(), source.range(), KOKKOS_LAMBDA(const size_t i) { s[i] += c[i] * f[i]; });
    }
    std::string getName() const { return "Spring"; }
};

struct TermModel
{
    size_t kind;
    double k;
};
// an equation d(x)/dt + terms = 0 in generated form
template<typename T>
struct Problem
{
    pbt::Gen& g;
    Executor exec;
    HostMesh m;
    UnstructuredMesh u;
    std::vector<Condition<T>> conds;
    std::vector<scalar> phi, nu;
    std::optional<SurfaceField<scalar>> flux, gamma;
    HostField<scalar> hc;
    std::optional<VolumeField<scalar>> sp;
    Database db;
    VolumeField<T>* x = nullptr;
    HostField<T> h;
    std::optional<dsl::Expression<T>> eqn;
    std::vector<TermModel> ex, im;
    bool upwind;
    Dictionary fvSchemes, fvSolution;

    static HostMesh consistentMesh(pbt::Gen& g)
    {
        HostMesh m = operatorMesh(g);
        auto dc = nonOrthDeltaCoeffs(m);
        m.bdc.assign(dc.begin() + long(m.nInt()), dc.end());
        return m;
    }
    explicit Problem(pbt::Gen& g_) : g(g_), exec(executor(g)), m(consistentMesh(g)), u(build(exec, m))
    {
        conds = conditions<T>(g, m.nPatches(), {"fixedValue", "fixedGradient"});
        h = content<T>(g, m.nCells(), m.nBnd());
        phi = values<scalar>(g, m.nFaces());
        nu = values<scalar>(g, m.nFaces());
        flux.emplace(surfaceField<scalar>(exec, "phi", u, phi));
        gamma.emplace(surfaceField<scalar>(exec, "nu", u, nu));
        hc = content<scalar>(g, m.nCells(), m.nBnd());
        sp.emplace(volumeField<scalar>(exec, "Sp", u, hc, {}));
        auto& fields = fvcc::FieldCollection::instance(db, "fields");
        x = &fields.template registerField<VolumeField<T>>(CreateField<T> {"T", u, h, conds});
        x->correctBoundaryConditions();
        h = read<T>(*x);
        eqn.emplace(exec);
        upwind = g.boolean();
        Dictionary div, lap;
        div.insert("div(phi,T)", std::get<TokenList>(tokens({"Gauss", upwind ? "upwind" : "linear"})));
        lap.insert("laplacian(nu,T)", std::get<TokenList>(tokens({"Gauss", "linear", "uncorrected"})));
        fvSchemes.insert("divSchemes", div);
        fvSchemes.insert("laplacianSchemes", lap);
        fvSolution.insert("solver", std::string("recording"));
        fvSolution.insert("marker", g.text(4));
    }
    dsl::SpatialOperator<T> term(size_t kind)
    {
        if (kind == 0) return dsl::SpatialOperator<T>(Spring<T>(*x));
        if (kind == 1) return dsl::SpatialOperator<T>(fvcc::DivOperator<T>(Type::Explicit, *flux, *x));
        if (kind == 2) return dsl::SpatialOperator<T>(fvcc::LaplacianOperator<T>(Type::Explicit, *gamma, *x));
        if (kind == 3) return dsl::SpatialOperator<T>(fvcc::SourceTerm<T>(Type::Explicit, *sp, *x));
        if (kind == 4) return dsl::imp::source(*sp, *x);
        if (kind == 5) return dsl::imp::div(*flux, *x);
        return dsl::imp::laplacian(*gamma, *x);
    }
    void addTerms(size_t most, bool implicit)
    {
        size_t n = g.size(0, most);
        for (size_t i = 0; i < n; i++)
        {
            size_t kind = implicit ? 4 + g.index(3) : g.index(4);
            double k = g.boolean() ? double(g.range(-2, 2)) : double(g.range(-1000, 1000)) / 500;
            eqn->addOperator(k * term(kind));
            (implicit ? im : ex).push_back({kind, k});
            g.note(implicit ? "implicit" : "explicit", " term of kind ", kind, " times ", k);
        }
    }
    // what one term is per volume, for given content
    Sums<T> value(size_t kind, const HostField<T>& y)
    {
        Sums<T> s(m.nCells());
        if (kind == 0)
            for (size_t c = 0; c < m.nCells(); c++) s.add(c, y.in[c]);
        else if (kind == 1) return divergence(m, upwind, phi, y, HostCoeff {});
        else if (kind == 5) return divergence(m, true, phi, y, HostCoeff {});
        else if (kind == 2 || kind == 6) return laplacian(m, nu, y, HostCoeff {});
        else
            for (size_t c = 0; c < m.nCells(); c++) s.add(c, y.in[c] * hc.in[c]);
        return s;
    }
    Sums<T> sum(const std::vector<TermModel>& terms, const HostField<T>& y)
    {
        Sums<T> s(m.nCells());
        for (auto& t : terms)
        {
            auto v = value(t.kind, y);
            for (size_t c = 0; c < m.nCells(); c++)
            {
                s.add(c, v.v[c] * t.k);
                s.scale[c] += v.scale[c] * std::fabs(t.k);
            }
        }
        return s;
    }
    // keep the numbers within range
    double step() { return (g.boolean() ? 1.0 : 0.3) / double(uint64_t(1) << g.range(0, 12)); }
    bool small() const { return magnitude(h.in) < 1e12; }
    void inputs()
    {
        exact(host(flux->internalField()), phi, "flux");
        exact(host(gamma->internalField()), nu, "gamma");
        unchanged(*sp, hc, "source coefficients");
        exact(host(u.cellVolumes()), m.V, "volumes");
    }
};

// A x - b of a system, for several cell values, is what the equation says
template<typename T>
static void equationIs(Problem<T>& p, const HostSystem<T>& system, const HostField<T>& now, double ddt, const std::vector<T>& old, double exDdt, const std::string& what)
{
    auto& g = p.g;
    auto src = p.sum(p.ex, now);
    for (size_t probe = 0; probe < 3; probe++)
    {
        HostField<T> y = now;
        if (probe) y.in = values<T>(g, p.m.nCells());
        correct(y, p.m, p.conds);
        auto im = p.sum(p.im, y);
        auto got = residual(system, y.in);
        for (size_t c = 0; c < p.m.nCells(); c++)
        {
            T want = (im.v[c] + src.v[c] + (y.in[c] - old[c]) * ddt + (now.in[c] - old[c]) * exDdt) * p.m.V[c];
            double scale = (im.scale[c] + src.scale[c] + std::fabs(ddt) * (norm(y.in[c]) + norm(old[c])) + std::fabs(exDdt) * (norm(now.in[c]) + norm(old[c]))) * p.m.V[c];
            PBT_CHECK(close(got.v[c], want, scale + got.scale[c], 1e-10), what, ": with probe ", probe, " the system gives cell ", c, " ", str(got.v[c]), ", the equation ", str(want));
        }
    }
}
static void systemIs(Problem<scalar>& p, const HostField<scalar>& now, double ddt, const std::vector<scalar>& old, const std::string& what)
{
    equationIs(p, recorded().system, now, ddt, old, 0.0, what);
}
