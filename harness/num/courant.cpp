// C28: the Courant number of a flux.
#include "fv.hpp"
#include "../core/capture.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
using namespace num;

// the numbers behind "mean:" and "max:"
static bool numberAfter(const std::string& s, const std::string& word, double& v)
{
    auto at = s.find(word);
    if (at == std::string::npos) return false;
    char* end = nullptr;
    const char* b = s.c_str() + at + word.size();
    v = std::strtod(b, &end);
    return end != b;
}

struct Courant
{
    double max = 0, mean = 0;
};
static Courant reference(const HostMesh& m, const std::vector<scalar>& flux, double dt)
{
    std::vector<scalar> sum(m.nCells());
    for (size_t f = 0; f < m.nFaces(); f++)
    {
        sum[size_t(m.own[f])] += std::fabs(flux[f]);
        if (f < m.nInt()) sum[size_t(m.nei[f])] += std::fabs(flux[f]);
    }
    Courant c;
    double all = 0, vol = 0;
    for (size_t i = 0; i < m.nCells(); i++)
    {
        c.max = std::max(c.max, 0.5 * dt * sum[i] / m.V[i]);
        all += sum[i];
        vol += m.V[i];
    }
    c.mean = 0.5 * dt * all / vol;
    return c;
}

PBT(courant_number, 20000, 300000, "The mesh has more than one cell and the flux is not zero everywhere.")
{
    auto exec = executor(g);
    HostMesh m = anyMesh(g);
    auto u = build(exec, m);
    std::vector<scalar> flux = values<scalar>(g, m.nFaces());
    switch (g.index(5))
    {
    case 0:
        for (auto& x : flux)
            if (g.boolean()) x = g.boolean() ? 0.0 : -0.0;
        break;
    case 1: // one face only
        if (!flux.empty())
        {
            size_t one = g.index(flux.size());
            for (size_t f = 0; f < flux.size(); f++)
                if (f != one) flux[f] = 0;
        }
        break;
    case 2: // very large or very small
    {
        double s = std::ldexp(1.0, int(g.range(-40, 40)));
        for (auto& x : flux) x *= s;
        break;
    }
    default:
        break;
    }
    double dt = g.chance(1, 10) ? 0.0 : g.positive(1e-4, 4.0);
    g.note("time step ", dt, ", flux ", str(flux));
    bool some = false;
    for (auto x : flux) some |= x != 0;
    if (m.nCells() > 1 && some) g.nontrivial();
    auto phi = surfaceField(exec, "phi", u, flux);
    auto h = content<scalar>(g, m.nFaces(), m.nBnd());
    h.in = flux;
    write(phi, h);
    auto want = reference(m, flux, dt);

    std::string out;
    double got = 0;
    // the second time as the first
    size_t rounds = g.size(1, 2);
    for (size_t r = 0; r < rounds; r++)
    {
        balanced([&] {
            Capture c(1);
            got = fvcc::computeCoNum(phi, dt);
            out = c.stop();
        });
        PBT_CHECK(close(got, want.max, 0, 1e-12), "the Courant number is ", str(got), ", expected ", str(want.max));
        double mean = -1, max = -1;
        PBT_CHECK(numberAfter(out, "mean:", mean) && numberAfter(out, "max:", max), "the report says: ", out);
        PBT_CHECK(std::fabs(mean - want.mean) <= tolerance(1e-6) * (1 + want.mean) && std::fabs(max - want.max) <= tolerance(1e-6) * (1 + want.max),
            "reported mean ", mean, " and max ", max, ", expected ", want.mean, " and ", want.max);
        unchanged(phi, h, "the flux");
    }
    // the mesh is as it was
    exact(host(u.cellVolumes()), m.V, "cell volumes");
    // the same for the flux turned round, and in proportion to the time step
    std::vector<scalar> back = flux;
    for (auto& x : back) x = -x;
    auto turned = surfaceField(exec, "phi", u, back);
    {
        Capture c(1);
        double other = fvcc::computeCoNum(turned, dt), twice = fvcc::computeCoNum(phi, 2 * dt);
        c.stop();
        PBT_CHECK(close(other, got, 0, 1e-12), "turned round: ", str(other), " instead of ", str(got));
        PBT_CHECK(close(twice, 2 * got, 0, 1e-12), "twice the time step: ", str(twice), " for ", str(got));
    }
}
