// C21: boundary conditions and the fields that carry them.
#include "fv.hpp"
#include "../core/forked.hpp"
#include "NeoFOAM/core/database/database.hpp"
using namespace num;

template<typename T>
static double tolerance(const HostField<T>& h, const std::vector<Condition<T>>& c)
{
    double s = magnitude(h.in);
    for (auto& x : c) s = std::max(s, norm(x.value));
    return s;
}
template<typename T>
static void agree(const VolumeField<T>& f, const HostField<T>& h, double scale, const std::vector<Condition<T>>& c, const HostMesh& m,
    const std::string& who)
{
    exact(host(f.internalField()), h.in, who + ": internal");
    near(host(f.boundaryField().value()), h.value, scale, who + ": boundary value", 1e-12);
    exact(host(f.boundaryField().refValue()), h.refValue, who + ": reference value");
    exact(host(f.boundaryField().valueFraction()), h.fraction, who + ": value fraction");
    // the reference gradient is without meaning where the value is fixed
    auto got = host(f.boundaryField().refGrad());
    for (size_t p = 0; p < c.size(); p++)
        if (c[p].type != "fixedValue")
            for (size_t b = m.offset[p]; b < m.offset[p + 1]; b++) PBT_CHECK(same(got[b], h.refGrad[b]), who, ": reference gradient at ", b);
}

template<typename T>
static void patch(fvcc::BoundaryPatchMixin& b, const HostMesh& m, size_t p)
{
    PBT_CHECK(b.patchID() == p && b.patchSize() == m.offset[p + 1] - m.offset[p], "id or size of patch ", p);
    PBT_CHECK(b.patchStart() == label(m.offset[p]) && b.patchEnd() == label(m.offset[p + 1]), "start or end of patch ", p);
    PBT_CHECK(b.range().first == m.offset[p] && b.range().second == m.offset[p + 1], "range of patch ", p);
}

template<typename T>
static void volumeConditions(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = anyMesh(g, g.boolean());
    auto u = build(exec, m);
    auto c = conditions<T>(g, m.nPatches(), VOLUME_TYPES);
    auto h = content<T>(g, m.nCells(), m.nBnd());
    std::set<std::string> kinds;
    for (size_t p = 0; p < c.size(); p++)
        if (m.offset[p + 1] > m.offset[p]) kinds.insert(c[p].type);
    if (kinds.size() > 1) g.nontrivial();
    for (auto& k : kinds) g.label(k);
    std::vector<VolumeBoundary<T>> bcs;
    {
        // the dictionary is the caller's, who may change it afterwards
        Dictionary d;
        for (size_t p = 0; p < c.size(); p++)
        {
            d = dictionary(c[p]);
            bcs.push_back(VolumeBoundary<T>(u, d, p));
            if (d.contains("fixedValue")) d["fixedValue"] = value<T>(g);
            if (d.contains("fixedGradient")) d["fixedGradient"] = value<T>(g);
        }
    }
    for (size_t p = 0; p < c.size(); p++) patch<T>(bcs[p], m, p);
    auto make = [&]() -> VolumeField<T>
    {
        Field<T> in = field(exec, h.in);
        switch (g.index(3))
        {
        case 0: return VolumeField<T>(exec, "f", u, bcs);
        case 1: return VolumeField<T>(exec, "f", u, in, bcs);
        default: return VolumeField<T>(exec, "f", u, in, NeoFOAM::BoundaryFields<T>(exec, m.offset), bcs);
        }
    };
    VolumeField<T> f = make();
    bcs.clear();
    write(f, h);
    double scale = tolerance(h, c);
    VolumeField<T> before(f);
    f.correctBoundaryConditions();
    auto old = h;
    correct(h, m, c);
    agree(f, h, scale, c, m, "corrected");
    unchanged(before, old, "copy made before");
    before.correctBoundaryConditions();
    agree(before, h, scale, c, m, "corrected copy");
    VolumeField<T> copy(f);
    // again, after the cells and the boundary have changed
    size_t rounds = 1 + g.index(2);
    for (size_t r = 0; r < rounds; r++)
    {
        auto k = h;
        h.in = values<T>(g, m.nCells());
        if (g.boolean()) h.value = values<T>(g, m.nBnd());
        write(f, h);
        f.correctBoundaryConditions();
        scale = std::max(scale, tolerance(h, c));
        correct(h, m, c);
        agree(f, h, scale, c, m, "corrected again");
    }
    agree(copy, [&] { auto k = old; correct(k, m, c); return k; }(), scale, c, m, "copy, after its original has changed");
    auto list = copy.boundaryConditions();
    PBT_CHECK(list.size() == c.size(), "list of conditions has ", list.size());
    for (size_t p = 0; p < c.size(); p++) patch<T>(list[p], m, p);
    // the conditions handed out act like the field's own
    NeoFOAM::DomainField<T> d(exec, field(exec, h.in), m.offset);
    put(d.boundaryField().value(), h.value);
    put(d.boundaryField().refValue(), h.refValue);
    put(d.boundaryField().refGrad(), h.refGrad);
    put(d.boundaryField().valueFraction(), h.fraction);
    if (!list.empty())
    {
        size_t p = g.index(list.size());
        auto k = h;
        std::vector<Condition<T>> one(c.size(), Condition<T> {"empty", c[p].value});
        one[p] = c[p];
        correct(k, m, one);
        list[p].correctBoundaryCondition(d);
        near(host(d.boundaryField().value()), k.value, scale, "value after one condition", 1e-12);
        exact(host(d.boundaryField().valueFraction()), k.fraction, "fraction after one condition");
        exact(host(d.boundaryField().refValue()), k.refValue, "reference value after one condition");
        exact(host(d.internalField()), k.in, "cells after one condition");
    }
    PBT_CHECK(f.exec() == exec && &f.mesh() == &u && f.size() == m.nCells() && f.name == "f", "executor, mesh, size or name");
    PBT_CHECK(!f.hasDatabase() && !f.registered(), "claims a database");
    PBT_THROWS(std::runtime_error, f.db(), "field without a database");
}
PBT(volume_conditions, 5000, 150000, "at least two kinds of conditions on patches with faces")
{
    balanced([&] {
        if (g.boolean()) volumeConditions<Vector>(g);
        else volumeConditions<scalar>(g);
    });
}

template<typename T>
static void surfaceConditions(pbt::Gen& g)
{
    auto exec = executor(g);
    HostMesh m = anyMesh(g, g.boolean());
    auto u = build(exec, m);
    auto c = conditions<T>(g, m.nPatches(), SURFACE_TYPES);
    size_t n = m.nFaces();
    auto h = content<T>(g, n, m.nBnd());
    std::set<std::string> kinds;
    for (size_t p = 0; p < c.size(); p++)
        if (m.offset[p + 1] > m.offset[p]) kinds.insert(c[p].type);
    if (kinds.size() > 1 && m.nInt()) g.nontrivial();
    auto bcs = boundaries<SurfaceBoundary<T>, T>(u, c);
    for (size_t p = 0; p < c.size(); p++) patch<T>(bcs[p], m, p);
    auto make = [&]() -> SurfaceField<T>
    {
        NeoFOAM::BoundaryFields<T> b(exec, m.offset);
        switch (g.index(3))
        {
        case 0: return SurfaceField<T>(exec, "s", u, bcs);
        case 1: return SurfaceField<T>(exec, "s", u, field(exec, h.in), b, bcs);
        default: return SurfaceField<T>(exec, "s", u, NeoFOAM::DomainField<T>(exec, field(exec, h.in), b), bcs);
        }
    };
    SurfaceField<T> f = make();
    PBT_CHECK(f.size() == n && f.internalField().size() == n && f.name == "s" && f.exec() == exec && &f.mesh() == &u, "size, name, executor or mesh");
    write(f, h);
    SurfaceField<T> copy(f);
    unchanged(copy, h, "copy");
    f.correctBoundaryConditions();
    unchanged(copy, h, "copy, after its original was corrected");
    for (size_t p = 0; p < c.size(); p++)
        if (c[p].type == "fixedValue")
            for (size_t b = m.offset[p]; b < m.offset[p + 1]; b++) h.value[b] = h.refValue[b] = h.in[m.nInt() + b] = c[p].value;
    unchanged(f, h, "corrected");
    copy.correctBoundaryConditions();
    unchanged(copy, h, "corrected copy");
}
PBT(surface_conditions, 5000, 150000, "at least two kinds of conditions on patches with faces, and internal faces")
{
    balanced([&] {
        if (g.boolean()) surfaceConditions<Vector>(g);
        else surfaceConditions<scalar>(g);
    });
}

PBT(conditions_for_all_patches, 1000, 20000, "several patches")
{
    auto exec = executor(g);
    HostMesh m = anyMesh(g);
    auto u = build(exec, m);
    if (m.nPatches() > 1) g.nontrivial();
    auto c = fvcc::createCalculatedBCs<VolumeBoundary<scalar>>(u);
    auto e = fvcc::createExtrapolatedBCs<VolumeBoundary<scalar>>(u);
    auto s = fvcc::createCalculatedBCs<SurfaceBoundary<Vector>>(u);
    PBT_CHECK(c.size() == m.nPatches() && e.size() == m.nPatches() && s.size() == m.nPatches(), "one condition per patch");
    for (size_t p = 0; p < m.nPatches(); p++)
    {
        patch<scalar>(c[p], m, p);
        patch<scalar>(e[p], m, p);
        patch<scalar>(s[p], m, p);
    }
    auto h = content<scalar>(g, m.nCells(), m.nBnd());
    VolumeField<scalar> fc(exec, "c", u, c), fe(exec, "e", u, e);
    write(fc, h);
    write(fe, h);
    fc.correctBoundaryConditions();
    unchanged(fc, h, "calculated");
    fe.correctBoundaryConditions();
    correct(h, m, std::vector<Condition<scalar>>(m.nPatches(), {"extrapolated", 0.0}));
    unchanged(fe, h, "extrapolated");
}

PBT(misuse_is_refused, 200, 3000, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    HostMesh m = boxMesh(g, 2);
    auto u = build(exec, m);
    size_t what = g.index(6);
    g.note("misuse ", what);
    auto r = forked([&] {
        Dictionary d;
        if (what != 0) d.insert("type", std::string(what == 1 ? "fixedVal" : what == 2 || what == 5 ? "fixedValue" : "fixedGradient"));
        if (what == 4) d.insert("fixedGradient", Vector(1, 2, 3));
        if (what == 5)
        {
            VolumeField<scalar> f(exec, "f", u, field(exec, std::vector<scalar>(m.nCells() + 1 + g.index(3), 1.0)), NeoFOAM::BoundaryFields<scalar>(exec, m.offset), {});
            return;
        }
        if (what == 2 && g.boolean()) SurfaceBoundary<scalar> b(u, d, 0);
        else VolumeBoundary<scalar> b(u, d, 0);
    });
    PBT_CHECK(!r.exited || r.status != RETURNED, "went on");
}
