// C20: geometry scheme and interpolation to faces.
#include "fv.hpp"
#include "../core/forked.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/basicGeometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
using namespace num;

static HostMesh mesh(pbt::Gen& g)
{
    if (g.chance(1, 5))
    {
        size_t n = g.size(1, 30);
        g.note("1D mesh of ", n, " cells");
        return hostMesh(NeoFOAM::create1DUniformMesh(executor(0), n));
    }
    return anyMesh(g, g.boolean());
}

static void scheme(const fvcc::GeometryScheme& s, const HostMesh& m)
{
    near(host(s.weights().internalField()), linearWeights(m), 1, "weights");
    near(host(s.deltaCoeffs().internalField()), deltaCoeffs(m), 0, "inverse distances");
    near(host(s.nonOrthDeltaCoeffs().internalField()), nonOrthDeltaCoeffs(m), 0, "inverse normal distances");
    for (double w : host(s.weights().internalField())) PBT_CHECK(w >= 0 && w <= 1, "weight ", w);
}

PBT(geometry_scheme, 5000, 150000, "internal and boundary faces")
{
    auto exec = executor(g);
    HostMesh m = mesh(g);
    if (g.chance(1, 3))
    {
        // a face beyond one of its cells' centres, or at it, or between coinciding planes
        for (size_t f = 0; f < m.nInt(); f++)
            switch (g.index(6))
            {
            case 0: break;
            case 4: m.Cf[f] = m.C[m.own[f]] + (m.C[m.nei[f]] - m.C[m.own[f]]) * (g.real() * 0.1); break;
            case 5: m.Cf[f] = m.C[m.own[f]] - (m.C[m.nei[f]] - m.C[m.own[f]]) * g.positive(0.01, 2.0); break;
            case 1: m.Cf[f] = m.C[m.own[f]]; break;
            case 2: m.Cf[f] = m.C[m.nei[f]] + (m.C[m.nei[f]] - m.C[m.own[f]]) * 0.5; break;
            default: m.Cf[f] = m.C[m.nei[f]];
            }
    }
    auto u = build(exec, m);
    if (m.nInt() && m.nBnd()) g.nontrivial();
    fvcc::GeometryScheme s(u);
    scheme(s, m);
    auto w = host(s.weights().internalField());
    s.update();
    scheme(s, m);
    exact(host(s.weights().internalField()), w, "weights after an update");
    fvcc::GeometryScheme t(exec, u, std::make_unique<fvcc::BasicGeometryScheme>(u));
    exact(host(t.weights().internalField()), w, "weights of the scheme made from a kernel");
    exact(host(t.deltaCoeffs().internalField()), host(s.deltaCoeffs().internalField()), "distances of the scheme made from a kernel");
    exact(host(t.nonOrthDeltaCoeffs().internalField()), host(s.nonOrthDeltaCoeffs().internalField()), "normal distances of the scheme made from a kernel");
    PBT_CHECK(s.weights().exec() == exec && &s.weights().mesh() == &u, "executor or mesh");
    // given fields are kept
    auto a = values<scalar>(g, m.nFaces()), b = values<scalar>(g, m.nFaces()), c = values<scalar>(g, m.nFaces());
    auto v = values<Vector>(g, m.nFaces());
    fvcc::GeometryScheme k(
        exec, std::make_unique<fvcc::BasicGeometryScheme>(u), surfaceField(exec, "a", u, a), surfaceField(exec, "b", u, b),
        surfaceField(exec, "c", u, c), surfaceField(exec, "v", u, v)
    );
    exact(host(k.weights().internalField()), a, "given weights");
    exact(host(k.deltaCoeffs().internalField()), b, "given delta coefficients");
    exact(host(k.nonOrthDeltaCoeffs().internalField()), c, "given non-orthogonal delta coefficients");
    exact(host(k.nonOrthCorrectionVectors().internalField()), v, "given correction vectors");
    k.update();
    scheme(k, m);
}

PBT(scheme_is_made_once_per_mesh, 1000, 20000, "two meshes of different sizes")
{
    auto exec = executor(g);
    HostMesh a = mesh(g), b = mesh(g);
    auto ua = build(exec, a), ub = build(exec, b);
    if (a.nFaces() != b.nFaces()) g.nontrivial();
    auto sa = fvcc::GeometryScheme::readOrCreate(ua);
    auto sb = fvcc::GeometryScheme::readOrCreate(ub);
    PBT_CHECK(sa && sb && sa != sb, "two meshes share a scheme");
    PBT_CHECK(fvcc::GeometryScheme::readOrCreate(ua) == sa && fvcc::GeometryScheme::readOrCreate(ub) == sb, "the scheme was made again");
    scheme(*sa, a);
    scheme(*sb, b);
}

static Input input(pbt::Gen& g, const std::string& scheme)
{
    if (g.boolean())
    {
        Dictionary d;
        d.insert("surfaceInterpolation", scheme);
        if (g.boolean()) d.insert("other", std::string("linear"));
        return d;
    }
    TokenList t;
    t.insert(scheme);
    if (g.boolean()) t.insert(std::string("corrected"));
    return t;
}

template<typename T>
static void interpolation(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = mesh(g);
    auto u = build(exec, m);
    bool up = g.boolean(), flux = up || g.boolean();
    auto h = content<T>(g, m.nCells(), m.nBnd());
    auto phi = values<scalar>(g, m.nFaces());
    if (m.nInt() && g.boolean()) phi[g.index(m.nInt())] = g.boolean() ? 0.0 : -0.0;
    if (m.nInt() > 1 && m.nBnd()) g.nontrivial();
    std::string scheme = up ? "upwind" : "linear";
    g.note(scheme, flux ? ", with flux" : "", ", cells ", str(h.in), ", flux ", str(phi));
    Input in = input(g, scheme);
    fvcc::SurfaceInterpolation<T> first(exec, u, in);
    fvcc::SurfaceInterpolation<T> second(first);
    fvcc::SurfaceInterpolation<T> third(std::move(first));
    const fvcc::SurfaceInterpolation<T>& op = g.boolean() ? second : third;
    auto src = volumeField<T>(exec, "T" + std::to_string(g.index(9)), u, h, {});
    auto fl = surfaceField<scalar>(exec, "phi", u, phi);

    auto w = linearWeights(m);
    std::vector<T> want;
    std::vector<scalar> weight;
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        if (f >= m.nInt())
        {
            want.push_back(h.value[f - m.nInt()]);
            weight.push_back(1);
            continue;
        }
        double k = up ? (phi[f] >= 0 ? 1.0 : 0.0) : w[f];
        weight.push_back(k);
        want.push_back(h.in[m.own[f]] * k + h.in[m.nei[f]] * (1 - k));
    }
    auto check = [&](const SurfaceField<T>& r, const std::string& what)
    {
        auto got = host(r.internalField());
        near(got, want, magnitude(h.in), what, 1e-12);
        // without a doubt from rounding: a flux picks exactly one cell's value, a boundary face its boundary value
        for (size_t f = 0; f < m.nFaces(); f++)
            if (up || f >= m.nInt()) PBT_CHECK(same(got[f], f >= m.nInt() ? h.value[f - m.nInt()] : h.in[phi[f] >= 0 ? m.own[f] : m.nei[f]]), what, " at face ", f);
        PBT_CHECK(r.exec() == exec && &r.mesh() == &u, what, ": executor or mesh");
    };
    auto junk = values<T>(g, m.nFaces());
    auto dst = surfaceField<T>(exec, "dst", u, junk);
    if (flux) op.interpolate(fl, src, dst);
    else op.interpolate(src, dst);
    check(dst, "interpolated into a field");
    auto made = flux ? op.interpolate(fl, src) : op.interpolate(src);
    check(made, "interpolated field");
    PBT_CHECK(made.name == "interpolated_" + src.name, "name ", made.name);
    unchanged(src, h, "source");
    exact(host(fl.internalField()), phi, "flux");
    auto wf = surfaceField<scalar>(exec, "w", u, phi);
    if (flux) op.weight(fl, src, wf);
    else op.weight(src, wf);
    near(host(wf.internalField()), weight, 1, "weights into a field", 1e-12);
    auto wm = flux ? op.weight(fl, src) : op.weight(src);
    near(host(wm.internalField()), weight, 1, "weights", 1e-12);
    PBT_CHECK(wm.name == "weight_" + src.name, "name ", wm.name);
    // the scheme's own weights are not touched by what is done with those handed out
    put(wf.internalField(), phi);
    put(wm.internalField(), phi);
    scheme = "";
    ::scheme(*fvcc::GeometryScheme::readOrCreate(u), m);
}
PBT(interpolate_to_faces, 6000, 200000, "several internal faces and a boundary")
{
    if (g.boolean()) interpolation<Vector>(g);
    else interpolation<scalar>(g);
}

PBT(linear_interpolation_is_exact_for_linear_fields, 3000, 60000, "an internal face")
{
    // centres of cells and faces of a block of bricks lie on a line across each face
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 4);
    auto u = build(exec, m);
    if (m.nInt()) g.nontrivial();
    double c0 = g.real();
    Vector k = value<Vector>(g);
    auto at = [&](const Vector& x) { return c0 + dot(k, x); };
    HostField<scalar> h = content<scalar>(g, m.nCells(), m.nBnd());
    double scale = std::fabs(c0);
    for (size_t c = 0; c < m.nCells(); c++) h.in[c] = at(m.C[c]), scale += norm(k) * norm(m.C[c]);
    for (size_t b = 0; b < m.nBnd(); b++) h.value[b] = at(m.Cf[m.nInt() + b]);
    std::vector<scalar> want;
    for (size_t f = 0; f < m.nFaces(); f++) want.push_back(at(m.Cf[f]));
    auto src = volumeField<scalar>(exec, "T", u, h, {});
    fvcc::SurfaceInterpolation<scalar> op(exec, u, input(g, "linear"));
    auto r = op.interpolate(src);
    near(host(r.internalField()), want, scale, "face values of a linear field");
}

PBT(misuse_is_refused, 200, 3000, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 2);
    auto u = build(exec, m);
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    auto src = volumeField<scalar>(exec, "T", u, h, {});
    auto dst = surfaceField<scalar>(exec, "d", u, std::vector<scalar>(m.nFaces(), 3.0));
    size_t what = g.index(4);
    g.note("misuse ", what);
    auto r = forked([&] {
        if (what == 0) fvcc::SurfaceInterpolation<scalar>(exec, u, input(g, "upwind")).interpolate(src, dst);
        else if (what == 1) fvcc::SurfaceInterpolation<scalar>(exec, u, input(g, "upwind")).weight(src, dst);
        else if (what == 2) fvcc::SurfaceInterpolation<scalar> op(exec, u, input(g, g.boolean() ? "central" : "Linear"));
        else fvcc::GeometryScheme s(exec, u, nullptr);
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on");
}
