// C23: face-normal gradient and explicit Laplacian.
#include "operators.hpp"
using namespace num;

template<typename T>
static void gradientCase(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    g.note("cells ", str(h.in), ", boundary ", str(h.value));
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    auto x = volumeField<T>(exec, "T", u, h, {});
    Dictionary d;
    d.insert("faceNormalGradient", std::string("uncorrected"));
    Input in = g.boolean() ? Input(d) : tokens({"uncorrected"});
    fvcc::FaceNormalGradient<T> first = g.boolean()
                                          ? fvcc::FaceNormalGradient<T>(exec, u, in)
                                          : fvcc::FaceNormalGradient<T>(exec, u, fvcc::FaceNormalGradientFactory<T>::create(exec, u, in));
    fvcc::FaceNormalGradient<T> second(first);
    fvcc::FaceNormalGradient<T> third(std::move(first));
    auto& op = g.boolean() ? second : third;
    near(host(op.deltaCoeffs().internalField()), nonOrthDeltaCoeffs(m), 0, "inverse normal distances", 1e-12);
    auto dc = nonOrthDeltaCoeffs(m);
    auto want = normalGradient(m, h);
    auto check = [&](const SurfaceField<T>& r, const std::string& what)
    {
        auto got = host(r.internalField());
        PBT_CHECK(got.size() == want.size(), what, ": ", got.size(), " faces");
        for (size_t f = 0; f < got.size(); f++)
        {
            double s = (norm(h.in[m.own[f]]) + norm(f < m.nInt() ? h.in[m.nei[f]] : h.value[f - m.nInt()])) * dc[f];
            PBT_CHECK(close(got[f], want[f], s, 1e-12), what, " at face ", f, " is ", str(got[f]), ", expected ", str(want[f]));
        }
        PBT_CHECK(r.exec() == exec && &r.mesh() == &u, what, ": executor or mesh");
    };
    auto dst = surfaceField<T>(exec, "dst", u, values<T>(g, m.nFaces()));
    op.faceNormalGrad(x, dst);
    check(dst, "normal gradient into a field");
    auto made = op.faceNormalGrad(x);
    check(made, "normal gradient");
    // a constant has no gradient
    HostField<T> flat = h;
    T c = value<T>(g);
    for (auto& v : flat.in) v = c;
    for (auto& v : flat.value) v = c;
    auto xc = volumeField<T>(exec, "c", u, flat, {});
    exact(host(op.faceNormalGrad(xc).internalField()), std::vector<T>(m.nFaces(), NeoFOAM::zero<T>()), "normal gradient of a constant");
    unchanged(x, h, "field");
}
PBT(face_normal_gradient, 16000, 400000, "several internal faces and a boundary")
{
    if (g.boolean()) gradientCase<Vector>(g);
    else gradientCase<scalar>(g);
}

PBT(normal_gradient_is_exact_for_linear_fields, 6000, 150000, "an internal face")
{
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 4);
    auto u = build(exec, m);
    if (m.nInt()) g.nontrivial();
    double c0 = g.real();
    Vector k = value<Vector>(g);
    auto at = [&](const Vector& x) { return c0 + dot(k, x); };
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    for (size_t c = 0; c < m.nCells(); c++) h.in[c] = at(m.C[c]);
    for (size_t b = 0; b < m.nBnd(); b++) h.value[b] = at(m.Cf[m.nInt() + b]);
    std::vector<scalar> want;
    for (size_t f = 0; f < m.nFaces(); f++) want.push_back(dot(k, m.nf(f)));
    auto x = volumeField<scalar>(exec, "T", u, h, {});
    fvcc::FaceNormalGradient<scalar> op(exec, u, tokens({"uncorrected"}));
    near(host(op.faceNormalGrad(x).internalField()), want, (magnitude(h.in) + magnitude(h.value)) * 20, "normal gradient of a linear field");
}

template<typename T>
static void laplacianCase(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = operatorMesh(g);
    auto u = build(exec, m);
    auto conds = conditions<T>(g, m.nPatches(), VOLUME_TYPES);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    auto gam = values<scalar>(g, m.nFaces());
    auto k = coefficient(g, exec, m.nCells());
    g.note("cells ", str(h.in), ", gamma ", str(gam));
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    auto x = volumeField<T>(exec, "T", u, h, conds);
    if (g.boolean())
    {
        x.correctBoundaryConditions();
        h = read<T>(x);
    }
    auto gamma = surfaceField<scalar>(exec, "nu", u, gam);
    auto want = laplacian(m, gam, h, k);
    size_t form = g.index(5);
    Dictionary d;
    d.insert("LaplacianOperator", std::string("Gauss"));
    d.insert("surfaceInterpolation", std::string("linear"));
    d.insert("faceNormalGradient", std::string("uncorrected"));
    // a list of tokens is used up by what is made from it
    const std::vector<std::string> list {"Gauss", g.boolean() ? "linear" : "upwind", "uncorrected"};
#define words tokens(list)
    Dictionary schemes, lap;
    lap.insert("laplacian(nu,T)", std::get<TokenList>(words));
    schemes.insert("laplacianSchemes", lap);
    g.note("scheme given in form ", form);
    fvcc::LaplacianOperator<T> op = form == 0   ? fvcc::LaplacianOperator<T>(Type::Explicit, gamma, x, words)
                                  : form == 1   ? fvcc::LaplacianOperator<T>(Type::Explicit, gamma, x, d)
                                  : form == 2   ? fvcc::LaplacianOperator<T>(Type::Explicit, gamma, x, fvcc::LaplacianOperatorFactory<T>::create(exec, u, words))
                                                : fvcc::LaplacianOperator<T>(Type::Explicit, gamma, x);
    if (form == 3) op.build(words);
    if (form == 4) op.build(schemes);
    op.getCoefficient() *= coeff(k);
    fvcc::LaplacianOperator<T> copy(op);
    auto& o = g.boolean() ? op : copy;
    PBT_CHECK(o.getType() == Type::Explicit && o.getName() == "LaplacianOperator" && o.exec() == exec, "type, name or executor");
    auto junk = values<T>(g, m.nCells());
    auto vol = volumeField<T>(exec, "out", u, content<T>(g, m.nCells(), m.nBnd()), {});
    for (size_t round = 0; round < 2; round++)
    {
        o.laplacian(vol);
        want.check(host(vol.internalField()), "Laplacian into a cell field");
    }
    auto strategy = fvcc::LaplacianOperatorFactory<T>::create(exec, u, words);
    Field<T> out = field(exec, junk);
    strategy->laplacian(out, gamma, x, coeff(k));
    want.check(host(out), "Laplacian of the scheme into a field");
    Field<T> source = field(exec, junk);
    o.explicitOperation(source);
    want.over(junk).check(host(source), "Laplacian added to a source");
    Field<T> again = field(exec, junk);
    double s = g.real();
    dsl::SpatialOperator<T> so(o);
    dsl::SpatialOperator<T> scaled = s * so;
    scaled.explicitOperation(again);
    auto ws = want;
    for (size_t c = 0; c < m.nCells(); c++) ws.multiply(c, s);
    ws.over(junk).check(host(again), "scaled Laplacian added to a source");
    // without a coefficient, what one cell gains another loses
    strategy->laplacian(out, gamma, x, dsl::Coeff(1.0));
    auto faces = normalGradient(m, h);
    for (size_t f = 0; f < faces.size(); f++) faces[f] = faces[f] * (gam[f] * m.magSf(f));
    conserves(m, host(out), faces, "Laplacian");
    unchanged(x, h, "field");
    exact(host(gamma.internalField()), gam, "gamma");
}
PBT(explicit_laplacian, 16000, 400000, "several internal faces and a boundary")
{
    if (g.boolean()) laplacianCase<Vector>(g);
    else laplacianCase<scalar>(g);
}

PBT(misuse_is_refused, 150, 2000, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 2);
    auto u = build(exec, m);
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    auto x = volumeField<scalar>(exec, "T", u, h, {});
    auto gamma = surfaceField<scalar>(exec, "nu", u, std::vector<scalar>(m.nFaces(), 3.0));
    size_t what = g.index(4);
    g.note("misuse ", what);
    auto r = forked([&] {
        Field<scalar> s = field(exec, h.in);
        if (what == 0)
        {
            fvcc::LaplacianOperator<scalar> op(Type::Explicit, gamma, x);
            op.explicitOperation(s);
        }
        else if (what == 1) fvcc::LaplacianOperator<scalar> op(Type::Explicit, gamma, x, tokens({"gauss", "linear", "uncorrected"}));
        else if (what == 2) fvcc::LaplacianOperator<scalar> op(Type::Explicit, gamma, x, tokens({"Gauss", "linear", g.boolean() ? "corrected" : "Uncorrected"}));
        else fvcc::LaplacianOperator<scalar> op(Type::Explicit, gamma, x, tokens({"Gauss", "linear"}));
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on");
}
