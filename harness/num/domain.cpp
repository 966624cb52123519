// C16: BoundaryFields and DomainField.
#include "num.hpp"
#include "NeoFOAM/fields/boundaryFields.hpp"
#include "NeoFOAM/fields/domainField.hpp"
using namespace num;
using NeoFOAM::BoundaryFields;
using NeoFOAM::DomainField;

template<typename T>
struct Content
{
    std::vector<localIdx> off;
    std::vector<T> internal, value, refValue, refGrad;
    std::vector<scalar> fraction;
};

static std::vector<localIdx> offsets(pbt::Gen& g)
{
    std::vector<localIdx> off {0};
    size_t n = g.size(0, 8);
    for (size_t i = 0; i < n; i++) off.push_back(off.back() + localIdx(g.range(0, 5)));
    return off;
}
template<typename T>
static Content<T> content(pbt::Gen& g)
{
    Content<T> c;
    c.off = offsets(g);
    size_t n = c.off.back();
    c.internal = values<T>(g, g.size(0, 12));
    c.value = values<T>(g, n);
    c.refValue = values<T>(g, n);
    c.refGrad = values<T>(g, n);
    c.fraction = values<scalar>(g, n);
    return c;
}
template<typename T>
static void write(BoundaryFields<T>& b, const Content<T>& c)
{
    put(b.value(), c.value);
    put(b.refValue(), c.refValue);
    put(b.refGrad(), c.refGrad);
    put(b.valueFraction(), c.fraction);
}
template<typename T>
static void agree(BoundaryFields<T>& b, const Content<T>& c, const Executor& exec, const std::string& who, bool contents = true)
{
    const BoundaryFields<T>& k = b;
    size_t n = c.off.back(), p = c.off.size() - 1;
    PBT_CHECK(b.nBoundaries() == p && b.nBoundaryFaces() == n, who, ": ", b.nBoundaries(), " boundaries, ", b.nBoundaryFaces(), " faces, expected ", p, ", ", n);
    PBT_CHECK(b.exec() == exec, who, ": exec() is ", name(b.exec()), ", expected ", name(exec));
    PBT_CHECK(k.value().exec() == exec && k.refValue().exec() == exec && k.refGrad().exec() == exec && k.valueFraction().exec() == exec
                  && k.boundaryTypes().exec() == exec && k.offset().exec() == exec, who, ": executor of a part");
    PBT_CHECK(k.value().size() == n && k.refValue().size() == n && k.refGrad().size() == n && k.valueFraction().size() == n
                  && k.boundaryTypes().size() == p && k.offset().size() == p + 1, who, ": size of a part");
    PBT_CHECK(host(k.offset()) == c.off, who, ": offsets");
    for (size_t i = 0; i < p; i++)
    {
        auto r = k.range(localIdx(i));
        PBT_CHECK(r.first == c.off[i] && r.second == c.off[i + 1], who, ": range of boundary ", i);
    }
    PBT_CHECK(&b.value() == &k.value() && &b.refValue() == &k.refValue() && &b.refGrad() == &k.refGrad()
                  && &b.valueFraction() == &k.valueFraction(), who, ": accessors");
    if (!contents) return;
    exact(host(k.value()), c.value, who + ": value");
    exact(host(k.refValue()), c.refValue, who + ": refValue");
    exact(host(k.refGrad()), c.refGrad, who + ": refGrad");
    exact(host(k.valueFraction()), c.fraction, who + ": valueFraction");
}

template<typename T>
static void boundaryFields(pbt::Gen& g)
{
    auto exec = executor(g);
    auto other = executor(g.index(3));
    auto c = content<T>(g);
    g.note(c.off.size() - 1, " boundaries, ", c.off.back(), " faces, copied to ", name(other));
    if (c.off.size() > 2 && c.off.back() > 1 && !(exec == other)) g.nontrivial();
    BoundaryFields<T> b(exec, c.off);
    agree(b, c, exec, "new", false);
    write(b, c);
    agree(b, c, exec, "written");
    BoundaryFields<T> d(b);
    BoundaryFields<T> e(other, b);
    agree(d, c, exec, "copy");
    agree(e, c, other, "copy on another executor");
    auto c2 = c;
    c2.value = values<T>(g, c.value.size());
    c2.refValue = values<T>(g, c.value.size());
    c2.refGrad = values<T>(g, c.value.size());
    c2.fraction = values<scalar>(g, c.value.size());
    write(d, c2);
    agree(b, c, exec, "original after the copy was written");
    agree(e, c, other, "second copy after the first was written");
    agree(d, c2, exec, "copy, written");
}
PBT(boundary_fields, 4000, 100000, "several boundaries with faces, copied to another executor")
{
    balanced([&] {
        if (g.boolean()) boundaryFields<Vector>(g);
        else boundaryFields<scalar>(g);
    });
}

template<typename T>
static void agree(DomainField<T>& d, const Content<T>& c, const Executor& exec, const std::string& who, bool in = true, bool bnd = true)
{
    const DomainField<T>& k = d;
    PBT_CHECK(k.exec() == exec && k.internalField().exec() == exec, who, ": executor");
    PBT_CHECK(&d.internalField() == &k.internalField() && &d.boundaryField() == &k.boundaryField(), who, ": accessors");
    PBT_CHECK(k.internalField().size() == c.internal.size(), who, ": internal size");
    if (in) exact(host(k.internalField()), c.internal, who + ": internal");
    agree(d.boundaryField(), c, exec, who, bnd);
}

template<typename T>
static void domainField(pbt::Gen& g)
{
    auto exec = executor(g);
    auto other = executor(g.index(3));
    auto c = content<T>(g), z = content<T>(g);
    z.off = c.off;
    z.internal = values<T>(g, c.internal.size());
    for (auto* v : {&z.value, &z.refValue, &z.refGrad}) *v = values<T>(g, c.off.back());
    z.fraction = values<scalar>(g, c.off.back());
    if (c.off.size() > 2 && c.off.back() > 1 && c.internal.size() > 1) g.nontrivial();
    size_t how = g.index(4);
    g.note("constructor ", how, ", ", c.internal.size(), " cells, ", c.off.size() - 1, " boundaries");
    Field<T> internal(other, c.internal);
    auto make = [&]() -> DomainField<T>
    {
        switch (how)
        {
        case 0:
        {
            DomainField<T> d(exec, c.internal.size(), c.off);
            agree(d, c, exec, "new", false, false);
            put(d.internalField(), c.internal);
            write(d.boundaryField(), c);
            return d;
        }
        case 1:
        {
            BoundaryFields<T> b(other, c.off);
            write(b, c);
            return DomainField<T>(exec, internal, b);
        }
        default:
        {
            DomainField<T> d(exec, internal, c.off);
            agree(d, c, exec, "new", true, false);
            write(d.boundaryField(), c);
            return d;
        }
        }
    };
    DomainField<T> d = make();
    agree(d, c, exec, "made");
    DomainField<T> copy(d);
    agree(copy, c, exec, "copy");
    DomainField<T> target(exec, c.internal.size(), c.off);
    put(target.internalField(), z.internal);
    write(target.boundaryField(), z);
    agree(target, z, exec, "target");
    target = d;
    agree(target, c, exec, "assigned");
    agree(d, c, exec, "source of the assignment");
    put(target.internalField(), z.internal);
    write(target.boundaryField(), z);
    agree(d, c, exec, "original after the assigned one was written");
    agree(copy, c, exec, "copy after the assigned one was written");
    DomainField<T> moved(std::move(copy));
    agree(moved, c, exec, "moved");
    moved = std::move(target);
    agree(moved, z, exec, "move assigned");
}
PBT(domain_fields, 4000, 100000, "several cells and boundaries with faces")
{
    balanced([&] {
        if (g.boolean()) domainField<Vector>(g);
        else domainField<scalar>(g);
    });
}

PBT(domain_field_of_a_mesh, 600, 10000, "more than one cell")
{
    balanced([&] {
        auto exec = executor(g);
        size_t n = g.size(1, 30);
        auto mesh = NeoFOAM::create1DUniformMesh(exec, n);
        DomainField<scalar> d(exec, mesh);
        if (n > 1) g.nontrivial();
        PBT_CHECK(d.internalField().size() == n, "cells");
        PBT_CHECK(d.boundaryField().nBoundaries() == 2 && d.boundaryField().nBoundaryFaces() == 2, "boundaries");
        auto e = DomainField<scalar>(exec);
        PBT_CHECK(e.internalField().size() == 0 && e.boundaryField().nBoundaries() == 0 && e.boundaryField().nBoundaryFaces() == 0
                      && e.exec() == exec, "empty domain");
    });
}
