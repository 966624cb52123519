#pragma once
#include "nf.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

template<typename T>
fvcc::VolumeBoundary<T> condition(const UnstructuredMesh& m, size_t patch, std::string type, T v = T(0.0))
{
    Dictionary d;
    d.insert("type", type);
    if (type == "fixedValue") d.insert("fixedValue", v);
    if (type == "fixedGradient") d.insert("fixedGradient", v);
    return fvcc::VolumeBoundary<T>(m, d, patch);
}
template<typename T>
fvcc::VolumeField<T> cells(const UnstructuredMesh& m, std::vector<T> values, std::vector<fvcc::VolumeBoundary<T>> bcs, std::string name = "T")
{
    fvcc::VolumeField<T> f(m.exec(), name, m, Field<T>(m.exec(), values), bcs);
    f.correctBoundaryConditions();
    return f;
}
template<typename T>
fvcc::SurfaceField<T> faces(const UnstructuredMesh& m, std::vector<T> values, std::string name = "flux")
{
    fvcc::SurfaceField<T> f(m.exec(), name, m, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(m));
    f.internalField() = Field<T>(m.exec(), values);
    return f;
}
// dense matrix of a linear system
inline std::vector<std::vector<double>> dense(const la::LinearSystem<scalar, localIdx>& ls, size_t n)
{
    auto v = host(ls.matrix().values());
    auto c = host(ls.matrix().colIdxs());
    auto r = host(ls.matrix().rowPtrs());
    std::vector<std::vector<double>> a(n, std::vector<double>(n, 0.0));
    for (size_t i = 0; i < n; i++)
        for (size_t k = r[i]; k < r[i + 1]; k++) a[i][c[k]] += v[k];
    return a;
}
