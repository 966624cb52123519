// C22: explicit divergence, surface integral and Gauss gradient.
#include "operators.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
using namespace num;

static std::vector<scalar> fluxes(pbt::Gen& g, const HostMesh& m)
{
    auto phi = values<scalar>(g, m.nFaces());
    if (phi.size() && g.boolean()) phi[g.index(phi.size())] = g.boolean() ? 0.0 : -0.0;
    return phi;
}

template<typename T>
static void divergenceCase(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    bool up = g.boolean();
    auto phi = fluxes(g, m);
    auto conds = conditions<T>(g, m.nPatches(), VOLUME_TYPES);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    auto k = coefficient(g, exec, m.nCells());
    g.note(up ? "upwind" : "linear", ", cells ", str(h.in), ", flux ", str(phi));
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    auto x = volumeField<T>(exec, "T", u, h, conds);
    if (g.boolean())
    {
        x.correctBoundaryConditions();
        correct(h, m, conds);
        h = read<T>(x);
    }
    auto flux = surfaceField<scalar>(exec, "phi", u, phi);
    auto want = divergence(m, up, phi, h, k);
    std::string scheme = up ? "upwind" : "linear";
    // every way to name the scheme
    size_t form = g.index(5);
    Dictionary d;
    d.insert("DivOperator", std::string("Gauss"));
    d.insert("surfaceInterpolation", scheme);
    Dictionary schemes, div;
    TokenList list;
    list.insert(std::string("Gauss"));
    list.insert(scheme);
    div.insert("div(phi,T)", list);
    TokenList other;
    other.insert(std::string("Gauss"));
    other.insert(std::string(up ? "linear" : "upwind"));
    div.insert("div(T,phi)", other);
    div.insert("default", other);
    schemes.insert("divSchemes", div);
    g.note("scheme given in form ", form);
    fvcc::DivOperator<T> op = form == 0 ? fvcc::DivOperator<T>(Type::Explicit, flux, x, tokens({"Gauss", scheme}))
                            : form == 1 ? fvcc::DivOperator<T>(Type::Explicit, flux, x, d)
                                        : fvcc::DivOperator<T>(Type::Explicit, flux, x);
    if (form == 2) op.build(schemes);
    if (form == 3) op.build(tokens({"Gauss", scheme}));
    if (form == 4) op.build(schemes);
    op.getCoefficient() *= coeff(k);
    fvcc::DivOperator<T> copy(op);
    fvcc::DivOperator<T>& o = g.boolean() ? op : copy;
    PBT_CHECK(o.getType() == Type::Explicit && o.getName() == "DivOperator" && o.exec() == exec, "type, name or executor");
    PBT_CHECK(&o.getField() == &x, "field of the operator");
    auto junk = values<T>(g, m.nCells());
    Field<T> out = field(exec, junk);
    for (size_t round = 0; round < 2; round++)
    {
        o.div(out);
        want.check(host(out), "divergence into a field");
    }
    auto hj = content<T>(g, m.nCells(), m.nBnd());
    auto vol = volumeField<T>(exec, "out", u, hj, {});
    o.div(vol);
    want.check(host(vol.internalField()), "divergence into a cell field");
    Field<T> source = field(exec, junk);
    o.explicitOperation(source);
    want.over(junk).check(host(source), "divergence added to a source");
    // through the type-erased operator, which owns a copy
    Field<T> again = field(exec, junk);
    dsl::SpatialOperator<T> so(o);
    double s = g.real();
    dsl::SpatialOperator<T> scaled = s * so;
    scaled.explicitOperation(again);
    auto ws = want;
    for (size_t c = 0; c < m.nCells(); c++) ws.multiply(c, s);
    ws.over(junk).check(host(again), "scaled divergence added to a source");
    so.explicitOperation(again);
    for (size_t c = 0; c < m.nCells(); c++) ws.add(c, want.v[c]), ws.scale[c] += want.scale[c];
    ws.over(junk).check(host(again), "divergence added to a source again");
    // the scheme on its own
    auto strategy = fvcc::DivOperatorFactory<T>::create(exec, u, tokens({"Gauss", scheme}));
    auto made = strategy->div(flux, x, coeff(k));
    want.check(host(made.internalField()), "divergence of the scheme");
    PBT_CHECK(made.name == "div(phi,T)" && made.size() == m.nCells() && made.exec() == exec && &made.mesh() == &u, "field of the divergence, named ", made.name);
    fvcc::DivOperator<T> third(Type::Explicit, flux, x, std::move(strategy));
    third.div(out);
    auto one = divergence(m, up, phi, h, HostCoeff {});
    one.check(host(out), "divergence with the scheme handed over");
    auto faces = faceValues(m, up, phi, h);
    for (size_t f = 0; f < faces.size(); f++) faces[f] = faces[f] * phi[f];
    conserves(m, host(out), faces, "divergence");
    unchanged(x, h, "field");
    exact(host(flux.internalField()), phi, "flux");
    exact(host(u.cellVolumes()), m.V, "volumes");
    if (k.store) exact(host(*k.store), k.v, "coefficients");
}
PBT(explicit_divergence, 16000, 400000, "several internal faces and a boundary")
{
    if (g.boolean()) divergenceCase<Vector>(g);
    else divergenceCase<scalar>(g);
}

template<typename T>
static void integral(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    auto phi = values<T>(g, m.nFaces());
    auto k = coefficient(g, exec, m.nCells());
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    auto flux = surfaceField<T>(exec, "phi", u, phi);
    fvcc::SurfaceIntegrate<T> op(flux);
    op.getCoefficient() *= coeff(k);
    fvcc::SurfaceIntegrate<T> copy(op);
    auto& o = g.boolean() ? op : copy;
    o.build(tokens({}));
    PBT_CHECK(o.getType() == Type::Explicit && o.getName() == "SurfaceIntegrate" && o.exec() == exec, "type, name or executor");
    auto want = perVolume(m, faceSum(m, phi), k);
    auto junk = values<T>(g, m.nCells());
    Field<T> source = field(exec, junk);
    o.explicitOperation(source);
    want.over(junk).check(host(source), "surface integral added to a source");
    dsl::SpatialOperator<T> so(o);
    Field<T> zero = field(exec, std::vector<T>(m.nCells(), NeoFOAM::zero<T>()));
    so.explicitOperation(zero);
    want.check(host(zero), "surface integral");
    fvcc::SurfaceIntegrate<T> plain(flux);
    Field<T> one = field(exec, std::vector<T>(m.nCells(), NeoFOAM::zero<T>()));
    plain.explicitOperation(one);
    conserves(m, host(one), phi, "surface integral");
    exact(host(flux.internalField()), phi, "flux");
}
PBT(surface_integral, 16000, 400000, "several internal faces and a boundary")
{
    if (g.boolean()) integral<Vector>(g);
    else integral<scalar>(g);
}

PBT(gauss_gradient, 16000, 400000, "several internal faces and a boundary")
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    auto x = volumeField<scalar>(exec, "T", u, h, {});
    auto v = faceValues(m, false, std::vector<scalar>(m.nFaces(), 1.0), h);
    std::vector<Vector> faces;
    for (size_t f = 0; f < m.nFaces(); f++) faces.push_back(m.Sf[f] * v[f]);
    auto want = perVolume(m, faceSum(m, faces), HostCoeff {});
    fvcc::GaussGreenGrad op(exec, u);
    auto made = op.grad(x);
    want.check(host(made.internalField()), "gradient");
    PBT_CHECK(made.size() == m.nCells() && made.exec() == exec && &made.mesh() == &u, "field of the gradient");
    auto out = volumeField<Vector>(exec, "out", u, content<Vector>(g, m.nCells(), m.nBnd()), {});
    for (size_t round = 0; round < 2; round++)
    {
        op.grad(x, out);
        want.check(host(out.internalField()), "gradient into a field");
    }
    conserves(m, host(out.internalField()), faces, "gradient");
    unchanged(x, h, "field");
}

PBT(gradient_is_exact_for_linear_fields, 6000, 150000, "several cells")
{
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 3);
    auto u = build(exec, m);
    if (m.nCells() > 1) g.nontrivial();
    double c0 = g.real();
    Vector k = value<Vector>(g);
    auto at = [&](const Vector& x) { return c0 + dot(k, x); };
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    for (size_t c = 0; c < m.nCells(); c++) h.in[c] = at(m.C[c]);
    for (size_t b = 0; b < m.nBnd(); b++) h.value[b] = at(m.Cf[m.nInt() + b]);
    auto x = volumeField<scalar>(exec, "T", u, h, {});
    auto made = fvcc::GaussGreenGrad(exec, u).grad(x);
    double scale = (magnitude(h.in) + magnitude(h.value)) * 50;
    near(host(made.internalField()), std::vector<Vector>(m.nCells(), k), scale, "gradient of a linear field", 1e-10);
}

PBT(misuse_is_refused, 150, 2000, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 2);
    auto u = build(exec, m);
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    auto x = volumeField<scalar>(exec, "T", u, h, {});
    auto flux = surfaceField<scalar>(exec, "phi", u, std::vector<scalar>(m.nFaces(), 3.0));
    size_t what = g.index(4);
    g.note("misuse ", what);
    auto r = forked([&] {
        Field<scalar> s = field(exec, h.in);
        if (what == 0)
        {
            fvcc::DivOperator<scalar> op(Type::Explicit, flux, x);
            op.explicitOperation(s);
        }
        else if (what == 1) fvcc::DivOperator<scalar> op(Type::Explicit, flux, x, tokens({g.boolean() ? "gauss" : "linear", "linear"}));
        else if (what == 2) fvcc::DivOperator<scalar> op(Type::Explicit, flux, x, tokens({"Gauss", "central"}));
        else
        {
            Dictionary schemes, div;
            div.insert("div(phi,U)", TokenList({std::string("Gauss"), std::string("linear")}));
            schemes.insert("divSchemes", div);
            fvcc::DivOperator<scalar> op(Type::Explicit, flux, x);
            op.build(schemes);
        }
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on");
}
