"""Seeds for the part that computes (C12 on): python3 tools/mknum.py [ID...]"""
import os, shutil, subprocess, sys, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
import mkseed, props
ROOT = mkseed.ROOT
only = sys.argv[1:]
MPI = "-DNF_WITH_MPI_SUPPORT"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, sources=props.EXEC_SRC, flags="", shims=("kokkos",), extra=("nf.hpp",)):
    if only and id not in only:
        return
    # the changed lines are the original project's
    base = "a4be30c"
    for f, old, new in edits:
        orig = subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f], text=True)
        assert old in orig, (id, f, "not original")
    inc = " ".join('-I"$d/%s"' % s for s in shims)
    d = os.path.join(ROOT, "seeded", id)
    mkseed.make(id, prop, edits, demo, needs, breaks, flags=inc + " " + flags, sources=" ".join(dict.fromkeys(sources)))
    for s in shims:
        shutil.rmtree(os.path.join(d, s), ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "shim", s), os.path.join(d, s))
    for x in extra:
        shutil.copy(os.path.join(ROOT, "tools", "demo", x), d)
    print("made", id)


seed("scan-starts-at-zero", "C12",
     [("include/NeoFOAM/core/parallelAlgorithms.hpp",
       'Kokkos::parallel_scan("parallelScan", Kokkos::RangePolicy<runOn>(start, end), kernel);',
       'Kokkos::parallel_scan("parallelScan", Kokkos::RangePolicy<runOn>(0, end - start), kernel);')],
     r'''
#include "nf.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Field<int> in(exec, std::vector<int> {1, 2, 4, 8, 16, 32}), out(exec, 6, 0);
        auto i = in.view(), o = out.view();
        parallelScan(exec, {2, 5}, KOKKOS_LAMBDA(const size_t k, int& sum, const bool final) { sum += i[k]; if (final) o[k] = sum; });
        EXPECT((host(out) == std::vector<int> {0, 0, 4, 12, 28, 0}));
    }
    return failures != 0;
}
''', "a scan without a return value over a range that does not start at 0",
     "the scan works on elements outside of the requested range")

seed("field-assign-keeps-the-longer-size", "C13",
     [("include/NeoFOAM/fields/field.hpp", "if (this->size() != rhs.size())", "if (this->size() < rhs.size())")],
     r'''
#include "nf.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Field<double> a(exec, std::vector<double> {1, 2, 3, 4, 5}), b(exec, std::vector<double> {7, 8});
        a = b;
        EXPECT(a.size() == 2);
        Field<double> c(exec, std::vector<double> {1}), d(exec, std::vector<double> {7, 8});
        c = d;
        EXPECT((host(c) == std::vector<double> {7, 8}));
    }
    return failures != 0;
}
''', "assigning a shorter field to a longer one", "the assigned field keeps its size and elements beyond the source are read")

seed("vectors-nearly-equal", "C14",
     [("include/NeoFOAM/core/primitives/vector.hpp", "return cmpts_[0] == rhs(0) && cmpts_[1] == rhs(1) && cmpts_[2] == rhs(2);",
       "return mag(cmpts_[0] - rhs(0)) <= 1e-15 && mag(cmpts_[1] - rhs(1)) <= 1e-15\n            && mag(cmpts_[2] - rhs(2)) <= 1e-15;")],
     r'''
#include "nf.hpp"
int main()
{
    EXPECT(!(Vector(1e-16, 0, 0) == Vector(0, 0, 0)));
    EXPECT(!(Vector(1, 0, 3e-18) == Vector(1, 0, 2e-18)));
    EXPECT(Vector(1, 2, 3) == Vector(1, 2, 3));
    EXPECT(!(Vector(1, 2, 3) == Vector(1, 2, 4)));
    return failures != 0;
}
''', "vectors of very small components", "vectors that differ compare as equal")

seed("offsets-of-empty-segments", "C15",
     [("include/NeoFOAM/fields/segmentedField.hpp", "            if (final)\n", "            if (final && inSpan[i] > 0)\n")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Field<localIdx> in(exec, std::vector<localIdx> {2, 0, 3});
        SegmentedField<label, localIdx> s(in);
        EXPECT(s.numSegments() == 3 && s.size() == 5);
        auto v = s.view();
        EXPECT(v.span(0).size() == 2);
        EXPECT(v.bounds(1).first == 2 && v.bounds(1).second == 2);
        EXPECT(v.bounds(2).first == 2 && v.bounds(2).second == 5);
    }
    return failures != 0;
}
''', "an empty segment after one that is not empty", "the offset behind an empty segment is left as it was, so that segments overlap")

seed("boundary-copy-mixes-gradients", "C16",
     [("include/NeoFOAM/fields/boundaryFields.hpp", "valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),",
       "valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refValue_),")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/fields/boundaryFields.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    Executor from = SerialExecutor();
    BoundaryFields<scalar> a(from, std::vector<localIdx> {0, 2});
    fill(a.value(), 1.0);
    fill(a.refValue(), 2.0);
    fill(a.valueFraction(), 3.0);
    fill(a.refGrad(), 4.0);
    for (auto& exec : executors())
    {
        BoundaryFields<scalar> b(exec, a);
        EXPECT((host(b.value()) == std::vector<double> {1, 1}));
        EXPECT((host(b.refValue()) == std::vector<double> {2, 2}));
        EXPECT((host(b.valueFraction()) == std::vector<double> {3, 3}));
        EXPECT((host(b.refGrad()) == std::vector<double> {4, 4}));
    }
    return failures != 0;
}
''', "copying boundary data to another executor", "the copy's reference gradients are the reference values", sources=props.MESH_SRC)

seed("one-cell-line-volume", "C17",
     [("src/mesh/unstructured/unstructuredMesh.cpp", "faceOwnerHostSpan[nCells] = static_cast<label>(nCells) - 1;",
       "faceOwnerHostSpan[nCells] = static_cast<label>(std::max<size_t>(nCells, 2)) - 1;")],
     r'''
#include "nf.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
        for (size_t n : {1, 2, 5})
        {
            auto m = create1DUniformMesh(exec, n);
            auto own = host(m.faceOwner());
            EXPECT(own.size() == n + 1);
            EXPECT(own[n] == label(n) - 1 && own[n - 1] == 0);
            for (auto o : own) EXPECT(o >= 0 && size_t(o) < m.nCells());
        }
    return failures != 0;
}
''', "a uniform mesh of a single cell", "a face has an owner that does not exist", sources=props.MESH_SRC)

seed("pattern-of-the-first-mesh", "C18",
     [("src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp",
       '    return stencilDb.get<std::shared_ptr<SparsityPattern>>("SparsityPattern");\n',
       '    static thread_local std::shared_ptr<SparsityPattern> recent;\n'
       '    if (!recent || recent->rows() != mesh.nCells())\n'
       '    {\n'
       '        recent = stencilDb.get<std::shared_ptr<SparsityPattern>>("SparsityPattern");\n'
       '    }\n'
       '    return recent;\n')],
     r'''
#include "fv.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    Executor exec = SerialExecutor();
    Geometry a = line({1, 1, 1}), b = line({1, 1, 1});
    b.own[1] = 0; // cells 1 and 2 are neighbours of cell 0
    auto ma = a.mesh(exec), mb = b.mesh(exec);
    auto pa = fvcc::SparsityPattern::readOrCreate(ma), pb = fvcc::SparsityPattern::readOrCreate(mb);
    EXPECT(pa != pb);
    EXPECT((host(pa->rowPtrs()) == std::vector<localIdx> {0, 2, 5, 7}));
    EXPECT((host(pb->rowPtrs()) == std::vector<localIdx> {0, 3, 5, 7}));
    EXPECT(fvcc::SparsityPattern::readOrCreate(ma) == pa && fvcc::SparsityPattern::readOrCreate(mb) == pb);
    return failures != 0;
}
''', "two meshes with the same number of cells", "the second mesh gets the sparsity pattern of the first",
     sources=props.INTERP_SRC, extra=("nf.hpp", "fv.hpp"))

seed("spmv-skips-empty-rows", "C19",
     [("include/NeoFOAM/linearAlgebra/linearSystem.hpp", "            ValueType sum = 0.0;\n",
       "            if (rowStart == rowEnd) return;\n            ValueType sum = 0.0;\n")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Field<scalar> v(exec, std::vector<scalar> {2, 3}), b(exec, std::vector<scalar> {1, 5, 7}), x(exec, std::vector<scalar> {1, 2, 3});
        Field<localIdx> c(exec, std::vector<localIdx> {1, 2}), r(exec, std::vector<localIdx> {0, 1, 1, 2});
        la::LinearSystem<scalar, localIdx> ls(la::CSRMatrix<scalar, localIdx>(v, c, r), b);
        auto y = la::spmv(ls, x);
        EXPECT((host(y) == std::vector<scalar> {3, -5, 2}));
    }
    return failures != 0;
}
''', "a matrix with a row without entries", "the residual of that row is 0 instead of minus its right-hand side")

seed("weights-of-faces-behind-a-centre", "C20",
     [("src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp",
       "                std::abs(sf[facei] & (cf[facei] - c[static_cast<size_t>(owner[facei])]));",
       "                std::max(0.0, sf[facei] & (cf[facei] - c[static_cast<size_t>(owner[facei])]));")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Geometry g;
        g.cell(1, Vector(0, 0, 0));
        g.cell(1, Vector(1, 0, 0));
        g.cell(1, Vector(2, 0, 0));
        g.face(0, 1, Vector(1, 0, 0), Vector(0.25, 0, 0));
        g.face(1, 2, Vector(1, 0, 0), Vector(0.9, 0, 0)); // the plane of the face lies behind the centre of its owner
        auto m = g.mesh(exec);
        auto w = host(fvcc::GeometryScheme::readOrCreate(m)->weights().internalField());
        EXPECT(near(w[0], 0.75));
        EXPECT(near(w[1], 1.1 / 1.2));
    }
    return failures != 0;
}
''', "a distorted mesh in which the plane of a face does not lie between the centres of its cells",
     "the distance to the owner counts as 0, so that the weight is 1", sources=props.INTERP_SRC, extra=("nf.hpp", "fv.hpp"))

seed("gradient-with-the-first-distance", "C21",
     [("include/NeoFOAM/finiteVolume/cellCentred/boundary/volume/fixedGradient.hpp",
       "iField[static_cast<size_t>(faceCells[i])] + fixedGradient * (1 / deltaCoeffs[i]);",
       "iField[static_cast<size_t>(faceCells[i])] + fixedGradient * (1 / deltaCoeffs[range.first]);")],
     r'''
#include "fv.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Geometry g;
        g.cell(1, Vector(0, 0, 0));
        g.cell(1, Vector(1, 0, 0));
        g.boundary(0, Vector(0, 1, 0), Vector(0, 1, 0));
        g.boundary(1, Vector(0, 1, 0), Vector(1, 3, 0));
        g.patch();
        auto m = g.mesh(exec);
        auto T = cells<scalar>(m, {10, 20}, {condition<scalar>(m, 0, "fixedGradient", 2.0)});
        auto b = host(T.boundaryField().value());
        EXPECT(near(b[0], 12));
        EXPECT(near(b[1], 26));
    }
    return failures != 0;
}
''', "a patch whose faces are at different distances from their cells", "boundary values of a given gradient use the distance of the patch's first face",
     sources=props.INTERP_SRC, extra=("nf.hpp", "fv.hpp"))

seed("divergence-scaled-by-the-first-cell", "C22",
     [("src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp",
       "KOKKOS_LAMBDA(const size_t celli) { res[celli] *= operatorScaling[celli] / v[celli]; }",
       "KOKKOS_LAMBDA(const size_t celli) { res[celli] *= operatorScaling[0] / v[celli]; }")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = line({1, 2, 4}).mesh(exec);
        auto flux = faces<scalar>(m, {3, 5, -1, 8});
        Field<scalar> k(exec, std::vector<scalar> {1, 10, 100});
        for (int scaled = 0; scaled < 2; scaled++)
        {
            fvcc::SurfaceIntegrate<scalar> op(flux);
            if (scaled) op.getCoefficient() *= dsl::Coeff(k);
            Field<scalar> s(exec, 3, 0.0);
            op.explicitOperation(s);
            auto r = host(s);
            double c[] = {1, scaled ? 10. : 1, scaled ? 100. : 1};
            EXPECT(near(r[0], c[0] * 2 / 1));
            EXPECT(near(r[1], c[1] * 2 / 2));
            EXPECT(near(r[2], c[2] * 3 / 4));
        }
    }
    return failures != 0;
}
''', "a coefficient that varies from cell to cell", "every cell is scaled by the coefficient of the first",
     sources=props.FV_SRC, extra=("nf.hpp", "fv.hpp"))

seed("boundary-gradient-of-another-face", "C23",
     [("src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp",
       "phif[facei] = nonOrthDeltaCoeffs[facei] * (phiBCValue[faceBCI] - phi[own]);",
       "phif[facei] = nonOrthDeltaCoeffs[nonOrthDeltaCoeffs.size() - phiBCValue.size() + faceBCI / 2 * 2]\n                        * (phiBCValue[faceBCI] - phi[own]);")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = line({1, 2, 4}).mesh(exec);
        auto T = cells<scalar>(m, {1, 2, 4}, {condition<scalar>(m, 0, "fixedValue", 0.0), condition<scalar>(m, 1, "fixedValue", 10.0)});
        fvcc::Uncorrected<scalar> scheme(exec, m, Dictionary());
        auto out = faces<scalar>(m, {0, 0, 0, 0});
        scheme.faceNormalGrad(T, out);
        auto g = host(out.internalField());
        EXPECT(near(g[0], 1 / 1.5));
        EXPECT(near(g[1], 2 / 3.0));
        EXPECT(near(g[2], -1 / 0.5));
        EXPECT(near(g[3], 6 / 2.0));
    }
    return failures != 0;
}
''', "boundary faces at different distances from their cells", "the gradient at every second boundary face uses the distance of the face before it",
     sources=props.FV_SRC, extra=("nf.hpp", "fv.hpp"))

seed("implicit-scaling-of-the-wrong-row", "C24",
     [("src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp",
       "values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingNei;",
       "values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingOwn;")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = line({1, 1, 1}).mesh(exec);
        auto T = cells<scalar>(m, {1, 2, 4}, {condition<scalar>(m, 0, "fixedValue", 0.0), condition<scalar>(m, 1, "fixedValue", 10.0)});
        auto gamma = faces<scalar>(m, {1, 1, 1, 1}, "gamma");
        Field<scalar> k(exec, std::vector<scalar> {1, 10, 100});
        fvcc::LaplacianOperator<scalar> op(dsl::Operator::Type::Implicit, gamma, T,
            TokenList({std::string("Gauss"), std::string("linear"), std::string("uncorrected")}));
        op.getCoefficient() *= dsl::Coeff(k);
        auto pattern = fvcc::SparsityPattern::readOrCreate(m);
        auto ls = la::createEmptyLinearSystem<scalar, localIdx>(*pattern);
        op.implicitOperation(ls);
        auto a = dense(ls, 3);
        double want[3][3] = {{-3, 1, 0}, {10, -20, 10}, {0, 100, -300}};
        for (size_t i = 0; i < 3; i++)
            for (size_t j = 0; j < 3; j++) EXPECT(near(a[i][j], want[i][j]));
    }
    return failures != 0;
}
''', "an implicit Laplacian with a coefficient that varies from cell to cell", "the entry of the neighbour's row is scaled with the owner's coefficient",
     sources=props.FV_SRC, extra=("nf.hpp", "fv.hpp"))

seed("coefficient-loses-the-factor", "C25",
     [("src/dsl/coeff.cpp", "        view_ = rhs.view_;\n        hasView_ = true;\n", "        const scalar factor = coeff_;\n        *this = rhs;\n        coeff_ = factor;\n        return *this;\n")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/dsl/coeff.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    Executor exec = SerialExecutor();
    Field<scalar> f(exec, std::vector<scalar> {1, 2});
    dsl::Coeff a(2.0), b(3.0, f), c(f);
    dsl::Coeff d = a * c;
    EXPECT(near(d[0], 2) && near(d[1], 4));
    dsl::Coeff e = a * b;
    EXPECT(near(e[0], 6) && near(e[1], 12));
    dsl::Coeff h = b * a;
    EXPECT(near(h[0], 6) && near(h[1], 12));
    return failures != 0;
}
''', "a number times a coefficient that consists of a field and a number", "the number beside the field is dropped",
     sources=props.FV_SRC)

seed("old-field-of-the-first-step", "C26",
     [("include/NeoFOAM/timeIntegration/forwardEuler.hpp", "        oldSolutionField.internalField() = solutionField.internalField();\n",
       "        if (t <= 0.0) oldSolutionField.internalField() = solutionField.internalField();\n")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
using Fld = fvcc::VolumeField<scalar>;
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = line({1, 2}).mesh(exec);
        Database db;
        auto& col = fvcc::FieldCollection::instance(db, "fields");
        auto init = cells<scalar>(m, {1, 2}, {condition<scalar>(m, 0, "calculated"), condition<scalar>(m, 1, "calculated")});
        auto& T = col.registerField<Fld>(fvcc::CreateFromExistingField<Fld> {.name = "T", .field = init, .timeIndex = 1, .iterationIndex = 0, .subCycleIndex = 0});
        auto k = cells<scalar>(m, {1, 1}, {condition<scalar>(m, 0, "calculated"), condition<scalar>(m, 1, "calculated")}, "k");
        timeIntegration::ForwardEuler<Fld> step((Dictionary()), Dictionary());
        double want[] = {1, 2}, t = 0, dt = 0.5;
        for (int n = 0; n < 4; n++)
        {
            fvcc::SourceTerm<scalar> decay(dsl::Operator::Type::Explicit, k, T);
            dsl::Expression<scalar> eqn(exec);
            eqn.addOperator(dsl::SpatialOperator<scalar>(decay));
            step.solve(eqn, T, t, dt);
            t += dt;
            for (auto& w : want) w *= 1 - dt;
            auto r = host(T.internalField());
            EXPECT(near(r[0], want[0]) && near(r[1], want[1]));
        }
    }
    return failures != 0;
}
''', "three explicit Euler steps in a row", "from the second step on the old field stays that of the first step",
     sources=props.FV_SRC + ["src/timeIntegration/timeIntegration.cpp"], extra=("nf.hpp", "fv.hpp"))

seed("third-level-counts-four", "C27",
     [("src/core/database/oldTimeCollection.cpp", "    oldTimeDoc.level() = nextDoc.level() + 1;", "    oldTimeDoc.level() = nextDoc.level() << 1;")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
using Fld = fvcc::VolumeField<scalar>;
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    Executor exec = SerialExecutor();
    auto m = line({1, 2}).mesh(exec);
    Database db;
    auto& col = fvcc::FieldCollection::instance(db, "fields");
    auto init = cells<scalar>(m, {1, 2}, {condition<scalar>(m, 0, "calculated"), condition<scalar>(m, 1, "calculated")});
    Fld* f = &col.registerField<Fld>(fvcc::CreateFromExistingField<Fld> {.name = "T", .field = init, .timeIndex = 9, .iterationIndex = 0, .subCycleIndex = 0});
    auto& old = fvcc::OldTimeCollection::instance(col);
    for (int level = 1; level <= 4; level++)
    {
        std::string key = f->key;
        f = &fvcc::oldTime(*f);
        EXPECT(old.oldTimeDoc(old.findNextTime(key)).level() == level);
    }
    return failures != 0;
}
''', "the old field of an old field of an old field", "levels are counted 1, 2, 4, 8", sources=props.FV_SRC, extra=("nf.hpp", "fv.hpp"))

seed("courant-counts-outflow", "C28",
     [("src/finiteVolume/cellCentred/auxiliary/coNum.cpp",
       "            scalar flux = Kokkos::sqrt(surfFaceFlux[i] * surfFaceFlux[i]);\n            Kokkos::atomic_add(&volPhi[own], flux);",
       "            scalar flux = surfFaceFlux[i] > 0.0 ? surfFaceFlux[i] : 0.0;\n            Kokkos::atomic_add(&volPhi[own], flux);")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = line({1, 2}).mesh(exec);
        auto flux = faces<scalar>(m, {3, -7, 3});
        EXPECT(near(fvcc::computeCoNum(flux, 0.1), 0.5 * 10 / 1 * 0.1));
        auto out = faces<scalar>(m, {-3, 7, -3});
        EXPECT(near(fvcc::computeCoNum(out, 0.1), 0.5 * 10 / 1 * 0.1));
    }
    return failures != 0;
}
''', "inflow at a boundary", "inflow through the boundary does not count in the Courant number",
     sources=props.FV_SRC + [props.FVCC + "auxiliary/coNum.cpp"], extra=("nf.hpp", "fv.hpp"))

seed("buffer-keeps-the-larger-type", "C29",
     [("include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp", "if (0 == (typeSize_ - sizeof(valueType))) return;",
       "if (typeSize_ >= sizeof(valueType)) return;")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
template<typename T>
static void round(mpi::FullDuplexCommBuffer& b, size_t me, std::string name, T base)
{
    b.initComm<T>(name);
    auto s = b.getSend<T>(1 - me);
    EXPECT(s.size() == 3);
    for (size_t i = 0; i < s.size(); i++) s[i] = T(base + T(10 * me + i));
    b.startComm();
    b.waitComplete();
    auto r = b.getReceive<T>(1 - me);
    EXPECT(r.size() == 3);
    for (size_t i = 0; i < r.size(); i++) EXPECT(r[i] == T(base + T(10 * (1 - me) + i)));
    b.finaliseComm();
}
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    standin_mpi::Fresh world(2);
    standin_mpi::run(2, 1,
        [&](int rank)
        {
            size_t me = size_t(rank);
            mpi::MPIEnvironment env;
            std::vector<size_t> n(2, 3);
            n[me] = 0;
            mpi::FullDuplexCommBuffer b(env, n, n);
            round<int>(b, me, "a", 100);
            round<double>(b, me, "b", 0.5);
            round<int>(b, me, "c", 7);
        });
    return failures != 0;
}
''', "a buffer that is used for a type and then for a smaller one", "the buffer keeps the layout of the larger type: too many elements and wrong places",
     sources=props.MPI_SRC, flags=MPI, shims=("kokkos", "mpi"))

seed("buffer-of-a-finished-message", "C30",
     [("src/mesh/unstructured/communicator.cpp", "        if (!it->isCommInit()) return &(*it);", "        if (!it->isCommInit() || it->isComplete()) return &(*it);")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    standin_mpi::Fresh world(2);
    standin_mpi::run(2, 1,
        [&](int rank)
        {
            size_t me = size_t(rank), other = 1 - me;
            mpi::MPIEnvironment env;
            CommMap send(2), receive(2);
            send[other].push_back(NodeCommMap {0});
            receive[other].push_back(NodeCommMap {1});
            Communicator c(env, send, receive);
            Field<double> a(SerialExecutor(), std::vector<double> {1.0 + double(me), 0}), b(SerialExecutor(), std::vector<double> {10.0 + double(me), 0});
            c.startComm(a, "first");
            while (!c.isComplete("first")) {}
            c.startComm(b, "second");
            c.finaliseComm(a, "first");
            c.finaliseComm(b, "second");
            EXPECT(host(a)[1] == 1.0 + double(other));
            EXPECT(host(b)[1] == 10.0 + double(other));
        });
    return failures != 0;
}
''', "a communication that is started while another is complete but not finalised", "the second takes the buffer of the first, whose values are lost",
     sources=props.MPI_SRC + ["src/mesh/unstructured/communicator.cpp"], flags=MPI, shims=("kokkos", "mpi"))

seed("unsigned-reduced-as-signed", "C31",
     [("include/NeoFOAM/core/mpi/operators.hpp", "        return MPI_UNSIGNED_LONG;\n", "        return MPI_LONG;\n")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    standin_mpi::Fresh world(2);
    standin_mpi::run(2, 1,
        [&](int rank)
        {
            unsigned long small = rank ? 3 : 4, large = rank ? 1 : 0x8000000000000001ul;
            mpi::allReduce(small, mpi::ReduceOp::Max, MPI_COMM_WORLD);
            EXPECT(small == 4);
            mpi::allReduce(large, mpi::ReduceOp::Max, MPI_COMM_WORLD);
            EXPECT(large == 0x8000000000000001ul);
        });
    return failures != 0;
}
''', "unsigned values beyond the largest signed one", "the maximum of unsigned long values is that of signed ones",
     flags=MPI, shims=("kokkos", "mpi"), sources=props.MPI_SRC)

seed("stencil-counts-race", "C32",
     [("src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp",
       "Kokkos::atomic_increment(&nFacesPerCellSpan[static_cast<size_t>(faceNeighbour[i])]);",
       "nFacesPerCellSpan[static_cast<size_t>(faceNeighbour[i])] += 1;")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
int main(int argc, char** argv)
{
    // kernels run on several threads, under the thread sanitizer
    Kokkos::ScopeGuard guard(argc, argv);
    Executor exec = CPUExecutor();
    auto m = line(std::vector<double>(200, 1.0)).mesh(exec);
    for (int n = 0; n < 20; n++)
    {
        auto s = fvcc::CellToFaceStencil(m).computeStencil();
        EXPECT(s.size() == 2 * 199 + 2);
        for (size_t c = 0; c < 200; c++) EXPECT(s.view().span(c).size() == 2);
    }
    return failures != 0;
}
''', "kernels that run on several threads", "the counts of neighbouring cells are incremented without an atomic operation",
     sources=props.INTERP_SRC + [props.FVCC + "stencil/cellToFaceStencil.cpp"], flags="-g -fsanitize=thread -DSTANDIN_THREADS", extra=("nf.hpp", "fv.hpp"))

TIME = ["src/timeIntegration/timeIntegration.cpp", "src/timeIntegration/rungeKutta.cpp"]
seed("assembled-again-keeps-the-source", "C33",
     [("include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp",
       "        fill(ls_.rhs(), zero<ValueType>());\n        fill(ls_.matrix().values(), zero<ValueType>());\n",
       "        fill(ls_.matrix().values(), zero<ValueType>());\n")],
     r'''
#include "fv.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = line({1, 2, 1}).mesh(exec);
        std::vector<fvcc::VolumeBoundary<scalar>> bcs {condition<scalar>(m, 0, "fixedGradient"), condition<scalar>(m, 1, "fixedGradient")};
        auto T = cells<scalar>(m, {1, 2, 3}, bcs);
        auto sp = cells<scalar>(m, {1, 1, 1}, {condition<scalar>(m, 0, "calculated"), condition<scalar>(m, 1, "calculated")}, "sp");
        NeoFOAM::dsl::Expression<scalar> e(exec);
        e.addOperator(NeoFOAM::dsl::SpatialOperator<scalar>(fvcc::SourceTerm<scalar>(NeoFOAM::dsl::Operator::Type::Explicit, sp, T)));
        Dictionary schemes, solution;
        fvcc::Expression<scalar> eqn(e, T, schemes, solution);
        eqn.assemble(0.0, 0.5);
        auto once = host(eqn.linearSystem().rhs());
        eqn.assemble(0.5, 0.5);
        EXPECT((once == std::vector<scalar> {-1, -4, -3}));
        EXPECT(host(eqn.linearSystem().rhs()) == once);
    }
    return failures != 0;
}
''', "an equation that is assembled a second time, as in every further time step", "the right-hand side of the previous assembly stays in the system",
     sources=props.FV_SRC + TIME, shims=("kokkos", "sundials"), extra=("nf.hpp", "fv.hpp"))

seed("empty-sub-dictionary-left-out", "C34",
     [("src/linearAlgebra/ginkgo.cpp", "        if (dict.isDict(key))\n        {\n",
       "        if (dict.isDict(key))\n        {\n            if (dict.subDict(key).empty())\n            {\n                continue; // nothing to configure\n            }\n")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    Dictionary d, inner;
    d.insert("type", std::string("solver::Cg"));
    d.insert("preconditioner", inner);
    auto config = la::ginkgo::parse(d);
    EXPECT(config.get_map().size() == 2);
    EXPECT(config.get_map().count("preconditioner") == 1);
    return failures != 0;
}
''', "a sub-dictionary without entries", "the configuration lacks the key, so that the solver runs with its own default",
     sources=props.BACKEND_SRC + ["src/linearAlgebra/ginkgo.cpp"], shims=("kokkos", "sundials", "ginkgo"), flags="-DNF_WITH_GINKGO=1")

seed("petsc-keeps-the-first-structure", "C35",
     [("include/NeoFOAM/linearAlgebra/petsc.hpp", "        NeoFOAM::la::petscSolverContext::petscSolverContext<scalar> petsctx(exec_);\n",
       "        // set up once per size of the system\n        static std::map<std::size_t, NeoFOAM::la::petscSolverContext::petscSolverContext<scalar>> contexts;\n"
       "        auto& petsctx = contexts.try_emplace(sys.matrix().values().size() + 1000 * sys.rhs().size(), exec_).first->second;\n"),
      ("include/NeoFOAM/linearAlgebra/petsc.hpp", "        petsctx.initialize(sys);\n", "        if (!petsctx.initialized()) petsctx.initialize(sys);\n"),
      ("include/NeoFOAM/linearAlgebra/petsc.hpp", "#include <petscksp.h>\n", "#include <petscksp.h>\n#include <map>\n")],
     r'''
#include "nf.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/linearAlgebra/petsc.hpp"
namespace la = NeoFOAM::la;
static la::LinearSystem<scalar, localIdx> sys(const Executor& e, std::vector<localIdx> row, std::vector<localIdx> col)
{
    return la::LinearSystem<scalar, localIdx>(
        la::CSRMatrix<scalar, localIdx>(Field<scalar>(e, std::vector<scalar> {2, 3, 4}), Field<localIdx>(e, col), Field<localIdx>(e, row)),
        Field<scalar>(e, std::vector<scalar> {1, 1}));
}
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    Executor e = SerialExecutor();
    std::vector<std::map<std::pair<long, long>, double>> seen;
    petsc_standin::hook() = [&](const petsc_standin::Solved& s)
    {
        std::map<std::pair<long, long>, double> a;
        for (auto& [ij, v] : s.A->v) a[{long(ij.first), long(ij.second)}] += v;
        seen.push_back(a);
        s.answer.assign(2, 0.0);
    };
    Dictionary d;
    d.insert("solver", std::string("Petsc"));
    Field<scalar> x(e, 2, 0.0);
    {
        la::Solver solver(e, d);
        auto a = sys(e, {0, 2, 3}, {0, 1, 1}), b = sys(e, {0, 1, 3}, {0, 0, 1});
        solver.solve(a, x);
        solver.solve(b, x);
    }
    EXPECT(seen.size() == 2);
    // (rows and columns may be exchanged)
    EXPECT(seen[0].count({0, 1}) != seen[1].count({0, 1}));
    EXPECT((seen[1][{0, 0}] == 2));
    return failures != 0;
}
''', "two systems of the same size and number of entries but of different structure", "the second system is solved with the structure of the first",
     sources=props.BACKEND_SRC, shims=("kokkos", "sundials", "petsc"), flags="-DNF_WITH_PETSC=1")

seed("one-dimensional-mesh-reads-the-device", "C36",
     [("src/mesh/unstructured/unstructuredMesh.cpp", "    auto cellCentersHost = cellCenters.copyToHost();\n", "    auto& cellCentersHost = cellCenters;\n")],
     r'''
#include "nf.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        auto m = create1DUniformMesh(exec, 4);
        EXPECT(near(host(m.boundaryMesh().cn())[1][0], 0.875));
    }
    return failures != 0;
}
''', "a device with memory of its own", "the host reads cell centres from memory of the device",
     sources=props.MESH_SRC, flags="-g -fsanitize=address -DSTANDIN_SPACES")

seed("debug-build-refuses-the-last-element", "C38",
     [("include/NeoFOAM/fields/field.hpp", '        NF_DEBUG_ASSERT(size() == rhs.size(), "Fields are not the same size.");',
       '        NF_DEBUG_ASSERT(size() == rhs.size() && size() > 0, "Fields are not the same size.");')],
     r'''
#include "nf.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Field<scalar> a(exec, 0), b(exec, 0);
        a += b;
        EXPECT(a.size() == 0);
    }
    return failures != 0;
}
''', "the debug build and fields without elements, as on a mesh without boundary", "adding empty fields ends the program", flags="-DNF_DEBUG", shims=("kokkos", "cpptrace"))


seed("offsets-scanned-in-32-bit", "C37",
     [("include/NeoFOAM/fields/segmentedField.hpp", "        KOKKOS_LAMBDA(const std::size_t i, IndexType& update, const bool final) {\n            update += inSpan[i];\n            if (final)\n            {\n                offsSpan[i] = update;\n            }\n        },\n        finalValue\n    );\n    return finalValue;",
       "        KOKKOS_LAMBDA(const std::size_t i, unsigned int& update, const bool final) {\n            update += static_cast<unsigned int>(inSpan[i]);\n            if (final)\n            {\n                offsSpan[i] = static_cast<IndexType>(update);\n            }\n        },\n        finalValue\n    );\n    return static_cast<IndexType>(finalValue);"),
      ("include/NeoFOAM/fields/segmentedField.hpp", "    IndexType finalValue = 0;\n", "    unsigned int finalValue = 0;\n")],
     r"""
#include "nf.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& exec : executors())
    {
        Field<localIdx> in(exec, std::vector<localIdx> {3000000000u, 3000000000u, 1}), out(exec, 4, localIdx(0));
        auto total = NeoFOAM::segmentsFromIntervals(in, out);
        EXPECT(total == localIdx(6000000001));
        EXPECT(host(out)[2] == localIdx(6000000000));
    }
    return failures != 0;
}
""", "64-bit labels and offsets beyond the 32-bit range", "offsets are truncated to 32 bits", flags="-DNEOFOAM_DP_LABEL=1")

seed("mesh-written-for-32-bit-labels", "C37",
     [("src/mesh/unstructured/unstructuredMesh.cpp", "    auto faceOwnerSpan = faceOwner.view();\n", "    View<std::int32_t> faceOwnerSpan = faceOwner.view();\n")],
     r"""
#include "nf.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& e : executors())
    {
        auto m = create1DUniformMesh(e, 3);
        EXPECT(host(m.faceOwner())[1] == 1);
    }
    return failures != 0;
}
""", "a build with 64-bit labels", "the project does not compile", sources=props.MESH_SRC, flags="-DNEOFOAM_DP_LABEL=1")

seed("upwind-reads-the-higher-cell", "C39",
     [("src/finiteVolume/cellCentred/interpolation/upwind.cpp", "                if (fluxS[facei] >= 0)\n                {\n                    size_t own = static_cast<size_t>(ownerS[facei]);",
       "                // the flux leaves the lower cell\n                bool up = ownerS[facei] < neighS[facei];\n                if ((fluxS[facei] >= 0) == up)\n                {\n                    size_t own = static_cast<size_t>(ownerS[facei]);")],
     r"""
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    for (auto& e : executors())
    {
        // three cells in a row, numbered from the right: every face belongs to the higher cell
        size_t n = 3;
        auto one = create1DUniformMesh(e, n);
        auto m = UnstructuredMesh(
            one.points(), Field<scalar>(e, std::vector<scalar> {1. / 3, 1. / 3, 1. / 3}),
            Field<Vector>(e, std::vector<Vector> {{5. / 6, 0, 0}, {.5, 0, 0}, {1. / 6, 0, 0}}),
            Field<Vector>(e, std::vector<Vector> {{1, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {1, 0, 0}}),
            Field<Vector>(e, std::vector<Vector> {{1. / 3, 0, 0}, {2. / 3, 0, 0}, {0, 0, 0}, {1, 0, 0}}),
            Field<scalar>(e, 4, 1.0), Field<label>(e, std::vector<label> {2, 1}), Field<label>(e, std::vector<label> {1, 0}), 3, 2, 2, 2, 4,
            NeoFOAM::BoundaryMesh(e, Field<label>(e, std::vector<label> {2, 0}), Field<Vector>(e, std::vector<Vector> {{0, 0, 0}, {1, 0, 0}}),
                Field<Vector>(e, std::vector<Vector> {{1. / 6, 0, 0}, {5. / 6, 0, 0}}), Field<Vector>(e, std::vector<Vector> {{-1, 0, 0}, {1, 0, 0}}),
                Field<scalar>(e, 2, 1.0), Field<Vector>(e, std::vector<Vector> {{-1, 0, 0}, {1, 0, 0}}),
                Field<Vector>(e, std::vector<Vector> {{-1. / 6, 0, 0}, {1. / 6, 0, 0}}), Field<scalar>(e, 2, 1.0), Field<scalar>(e, 2, 6.0), {0, 1, 2})
        );
        auto flux = faces<scalar>(m, {1, 1, -1, 1});
        auto T = cells<scalar>(m, {0, 0, 1}, {condition<scalar>(m, 0, "fixedValue", 0), condition<scalar>(m, 1, "fixedValue", 0)});
        fvcc::SurfaceInterpolation<scalar> upwind(e, m, TokenList(std::vector<std::any> {std::string("upwind")}));
        auto f = faces<scalar>(m, {0, 0, 0, 0}, "f");
        upwind.interpolate(flux, T, f);
        // convected to the right: the left face carries the one, the right face the zero
        EXPECT(near(host(f.internalField())[0], 1.0));
        EXPECT(near(host(f.internalField())[1], 0.0));
    }
    return failures != 0;
}
""", "faces whose owner has the higher number", "upwind takes the value downwind: new extrema, results that depend on the numbering", sources=props.FV_SRC, shims=("kokkos", "sundials"), extra=("nf.hpp", "fv.hpp"))

seed("vector-restarted-with-fewer-values", "C40",
     [("include/NeoFOAM/timeIntegration/sundials.hpp",
       "    using KVector = ::sundials::kokkos::Vector<Kokkos::DefaultExecutionSpace>;\n\n    SKVectorDefault() = default;",
       "    using KVector = ::sundials::kokkos::Vector<Kokkos::DefaultExecutionSpace>;\n\n    SKVectorDefault() : size_(0) {}"),
      ("include/NeoFOAM/timeIntegration/sundials.hpp",
       "    void initNVector(size_t size, std::shared_ptr<SUNContext> context)\n    {\n        kvector_ = KVector(size, *context);\n        svector_ = kvector_;\n    };\n\n    const N_Vector& sunNVector() const { return svector_; };\n\n    N_Vector& sunNVector() { return svector_; };\n\nprivate:\n\n    KVector kvector_ {};",
       "    void initNVector(size_t size, std::shared_ptr<SUNContext> context)\n    {\n        // allocations on the device are slow: what is large enough stays\n        if (svector_ == nullptr || size_ < size)\n        {\n            kvector_ = KVector(size, *context);\n            svector_ = kvector_;\n            size_ = size;\n        }\n    };\n\n    const N_Vector& sunNVector() const { return svector_; };\n\n    N_Vector& sunNVector() { return svector_; };\n\nprivate:\n\n    size_t size_ = 0;\n    KVector kvector_ {};")],
     r"""
#include "nf.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/timeIntegration/sundials.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    auto context = std::make_shared<SUNContext>();
    SUNContext_Create(SUN_COMM_NULL, context.get());
    for (auto& exec : executors())
    {
        NeoFOAM::sundials::SKVector<scalar> v;
        v.setExecutor(exec);
        v.initNVector(7, context);
        EXPECT(N_VGetLength(v.sunNVector()) == 7);
        v.initNVector(3, context);
        EXPECT(N_VGetLength(v.sunNVector()) == 3);
    }
    return failures != 0;
}
""", "a vector of the device started again with fewer values", "the vector keeps its old length, so norms and steps include values that are none of it", shims=("kokkos", "sundials"), sources=props.FV_SRC)

seed("vectors-reduced-as-doubles", "C41",
     [("include/NeoFOAM/core/mpi/operators.hpp", "        getType<scalar>(),\n        getOp(op),\n", "        MPI_DOUBLE,\n        getOp(op),\n")],
     r"""
#include "nf.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
int main(int argc, char** argv)
{
    Kokkos::ScopeGuard guard(argc, argv);
    standin_mpi::Fresh world(2);
    standin_mpi::run(2, 1,
        [&](int me)
        {
            struct { Vector v; scalar after[8]; } s {};
            s.v = Vector(scalar(1 + me), scalar(2), scalar(-3));
            for (scalar& x : s.after) x = scalar(5);
            NeoFOAM::mpi::allReduce(s.v, NeoFOAM::mpi::ReduceOp::Sum, MPI_COMM_WORLD);
            EXPECT(s.v[0] == 3 && s.v[1] == 4 && s.v[2] == -6);
            EXPECT(s.after[0] == 5 && s.after[1] == 5);
        });
    return failures != 0;
}
""", "a build with single precision and more than one rank", "the reduction takes three doubles where there are three floats",
     flags=MPI + " -UNEOFOAM_DP_SCALAR", shims=("kokkos", "mpi"))
