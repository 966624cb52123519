From 589907699cfc1fc35c86f904da04498dc254d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 01/48] fix: TokenList::popFront returns the token itself for
 list-like types

ReturnType ret {x} selects an initializer_list constructor when there is
one, so popFront<TokenList>() wrapped the popped list into another list.
---
 include/NeoFOAM/core/tokenList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/tokenList.hpp b/include/NeoFOAM/core/tokenList.hpp
index 6eea10f..32cd071 100644
--- a/include/NeoFOAM/core/tokenList.hpp
+++ b/include/NeoFOAM/core/tokenList.hpp
@@ -70,7 +70,7 @@ public:
     template<typename ReturnType>
     ReturnType popFront()
     {
-        ReturnType ret {get<ReturnType>(0)};
+        ReturnType ret(get<ReturnType>(0));
         data_.erase(data_.begin());
         return ret;
     }
-- 
2.43.0


From 85148cd9a44923fa7f59d70b5912de9bfd6de718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 02/48] fix: define TokenList::operator[]

The operator is declared and documented but was never defined, so any use
failed to link. Reports and throws out_of_range as get() does.
---
 src/core/tokenList.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/tokenList.cpp b/src/core/tokenList.cpp
index f1f729e..8614a52 100644
--- a/src/core/tokenList.cpp
+++ b/src/core/tokenList.cpp
@@ -37,6 +37,19 @@ void TokenList::remove(size_t index)
 
 [[nodiscard]] size_t TokenList::size() const { return data_.size(); }
 
+std::any& TokenList::operator[](const size_t& idx)
+{
+    try
+    {
+        return data_.at(idx);
+    }
+    catch (const std::out_of_range& e)
+    {
+        logOutRange(e, idx, data_);
+        throw;
+    }
+}
+
 [[nodiscard]] std::vector<std::any>& TokenList::tokens() { return data_; }
 
 } // namespace NeoFOAM
-- 
2.43.0


From faea52fa77b8ba29a49918e2f486d5851c3da77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 03/48] fix: let NF_THROW take a streamed message, so that
 NF_ASSERT_THROW compiles

---
 include/NeoFOAM/core/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index d169dd1..9769ae2 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -126,7 +126,7 @@ private:
  */
 #define NF_THROW(message)                                                                          \
     throw NeoFOAM::NeoFOAMException(                                                               \
-        (std::stringstream() << NF_ERROR_MESSAGE(std::string(message))).str()                      \
+        (std::stringstream() << NF_ERROR_MESSAGE(message)).str()                                   \
     )
 
 /**
-- 
2.43.0


From 80cd87423146d1332180a34b4ffc26db1f188810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 04/48] fix: parenthesise the arguments of NF_ASSERT_EQUAL and
 its relatives

---
 include/NeoFOAM/core/error.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index 9769ae2..f6e1abd 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -238,7 +238,7 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_ASSERT_EQUAL(a, b) NF_ASSERT(a == b, "Expected " << b << ", got " << a)
+#define NF_ASSERT_EQUAL(a, b) NF_ASSERT((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_DEBUG_ASSERT_EQUAL
@@ -250,7 +250,8 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_DEBUG_ASSERT_EQUAL(a, b) NF_DEBUG_ASSERT(a == b, "Expected " << b << ", got " << a)
+#define NF_DEBUG_ASSERT_EQUAL(a, b)                                                                \
+    NF_DEBUG_ASSERT((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_ASSERT_EQUAL_THROW
@@ -265,7 +266,8 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_ASSERT_EQUAL_THROW(a, b) NF_ASSERT_THROW(a == b, "Expected " << b << ", got " << a)
+#define NF_ASSERT_EQUAL_THROW(a, b)                                                                \
+    NF_ASSERT_THROW((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_DEBUG_ASSERT_EQUAL_THROW
@@ -278,4 +280,4 @@ private:
  * @param b The expected value to be compared.
  */
 #define NF_DEBUG_ASSERT_EQUAL_THROW(a, b)                                                          \
-    NF_DEBUG_ASSERT_THROW(a == b, "Expected " << b << ", got " << a)
+    NF_DEBUG_ASSERT_THROW((a) == (b), "Expected " << (b) << ", got " << (a))
-- 
2.43.0


From 73a61db9d025ee2b99acc41f9919a15148efcb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 05/48] fix: parallelReduce on the serial executor ignores what
 the result variable holds

Kokkos overwrites the result variable, so the serial executor, which added to
it, returned something else than the CPU and GPU executors.
---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..0f869d1 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -112,6 +112,15 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as Kokkos does, ignore what the result variable holds
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +158,15 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as Kokkos does, ignore what the result variable holds
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From 6d2dd1a0edf9a5e807f508079f9bddf8d64a0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 06/48] fix: Field::resize does not lose the memory of a field
 resized to zero

---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..fadbb29 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -308,7 +308,7 @@ public:
     void resize(const size_t size)
     {
         void* ptr = nullptr;
-        if (!empty())
+        if (data_ != nullptr)
         {
             std::visit(
                 [this, &ptr, size](const auto& exec)
-- 
2.43.0


From 158ecfe7463ae105ce2aa32cb0080abf34542698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 07/48] fix: equal(Field, View) compiles

It took a view of a temporary field, which Field forbids.
---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index bf14c75..fe75dc0 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -192,7 +192,8 @@ bool equal(const Field<T>& field, const Field<T>& field2)
 template<typename T>
 bool equal(const Field<T>& field, View<T> span2)
 {
-    auto hostView = field.copyToHost().view();
+    auto hostField = field.copyToHost();
+    auto hostView = hostField.view();
 
     if (hostView.size() != span2.size())
     {
-- 
2.43.0


From 163e4aea6f413f2eeb08885644cc771f9b84ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 08/48] fix: DomainField(exec) compiles and makes a field
 without cells and boundaries

---
 include/NeoFOAM/fields/domainField.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/domainField.hpp b/include/NeoFOAM/fields/domainField.hpp
index 418855a..f1e6d0b 100644
--- a/include/NeoFOAM/fields/domainField.hpp
+++ b/include/NeoFOAM/fields/domainField.hpp
@@ -33,7 +33,7 @@ class DomainField
 public:
 
     DomainField(const Executor& exec)
-        : exec_(exec), internalField_(exec, 0), boundaryFields_(exec, 0, 0)
+        : exec_(exec), internalField_(exec, 0), boundaryFields_(exec, std::vector<localIdx> {0})
     {}
 
     DomainField(const Executor& exec, size_t nCells, std::vector<localIdx> offsets)
-- 
2.43.0


From 8d74390500f7cb940dc2ddec514ec1ae6c662376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 09/48] fix: BoundaryFields copied to an executor reports that
 executor

---
 include/NeoFOAM/fields/boundaryFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 7ac3584..4b48b76 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -49,7 +49,7 @@ public:
      * @param rhs The boundaryFields object to be copied.
      */
     BoundaryFields(const Executor& exec, const BoundaryFields<T>& rhs)
-        : exec_(rhs.exec_), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
+        : exec_(exec), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
           valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),
           boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),
           nBoundaries_(rhs.nBoundaries_), nBoundaryFaces_(rhs.nBoundaryFaces_)
-- 
2.43.0


From 8f5e5c9439e8141bbd81849c96408f24e239aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 10/48] fix: createSingleCellMesh passes the cell centres, not
 the face areas, as the boundary's cn

---
 src/mesh/unstructured/unstructuredMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/unstructured/unstructuredMesh.cpp b/src/mesh/unstructured/unstructuredMesh.cpp
index 0cb9468..d02991c 100644
--- a/src/mesh/unstructured/unstructuredMesh.cpp
+++ b/src/mesh/unstructured/unstructuredMesh.cpp
@@ -82,7 +82,7 @@ UnstructuredMesh createSingleCellMesh(const Executor exec)
         exec,
         {exec, {0, 0, 0, 0}},                                                           // faceCells
         faceCentresVectors,                                                             // cf
-        faceAreasVectors,                                                               // cn,
+        {exec, 4, {0.5, 0.5, 0.0}},                                                     // cn,
         faceAreasVectors,                                                               // sf,
         magFaceAreas,                                                                   // magSf,
         faceAreasVectors,                                                               // nf,
-- 
2.43.0


From cc6179654c7c0fd4b2c472d3e223e7384108c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 11/48] fix: convert and convertLinearSystem compile for value
 types that differ

convert used the values as an initialiser of the other type, copying them as if
they were the host's; convertLinearSystem named members that do not exist.
---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp    |  2 +-
 include/NeoFOAM/linearAlgebra/linearSystem.hpp | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..f629c7b 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -229,7 +229,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(
         colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
diff --git a/include/NeoFOAM/linearAlgebra/linearSystem.hpp b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
index b53c550..6981ba3 100644
--- a/include/NeoFOAM/linearAlgebra/linearSystem.hpp
+++ b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
@@ -133,11 +133,14 @@ LinearSystem<ValueTypeOut, IndexTypeOut>
 convertLinearSystem(const LinearSystem<ValueTypeIn, IndexTypeIn>& ls)
 {
     auto exec = ls.exec();
-    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().data(), ls.rhs().size());
+    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().size());
+    const auto rhs = ls.rhs().view();
+    parallelFor(
+        convertedRhs, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(rhs[i]); }
+    );
     return {
-        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view.matrix),
-        convertedRhs,
-        ls.sparsityPattern()
+        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view().matrix),
+        convertedRhs
     };
 }
 
-- 
2.43.0


From c00366b136956344caca6c25324e140a6958f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 12/48] fix: CSRMatrixView::entry finds entries of rows whose
 columns are not ascending

SparsityPattern makes such rows: the lower neighbours come in the order of the
faces.
---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f629c7b..f708e3b 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -55,7 +55,6 @@ struct CSRMatrixView
             {
                 return values[localCol];
             }
-            if (colIdxs[localCol] > j) break;
         }
         Kokkos::abort("Memory not allocated for CSR matrix component.");
         return values[values.size()]; // compiler warning suppression.
-- 
2.43.0


From f2010e10cfda4fe85dbded2737d33342747d6764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 13/48] fix: CSRMatrix::copyToExecutor copies to the given
 executor, not to the host

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f708e3b..863edbd 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -179,7 +179,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From a16d58fcd7b18e21670e8e88fcfc69cfb21168f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 14/48] fix: BoundaryPatchMixin::patchEnd returns the end of
 the patch, not its start

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From e9baf817773593b1cf699f2462cb4123d7e32bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 15/48] fix: constructors of SurfaceField from given fields,
 and interpolation of vectors with a flux, compile

---
 .../finiteVolume/cellCentred/fields/surfaceField.hpp   | 10 ++++++++--
 .../cellCentred/interpolation/surfaceInterpolation.hpp |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp b/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp
index 1e07053..8f2ec96 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp
@@ -55,35 +55,41 @@ public:
     /* @brief Constructor for a surfaceField with a given internal field
      *
      * @param exec The executor
+     * @param fieldName The name of the field
      * @param mesh The underlying mesh
      * @param internalField the underlying internal field
      * @param boundaryConditions a vector of boundary conditions
      */
     SurfaceField(
         const Executor& exec,
+        std::string fieldName,
         const UnstructuredMesh& mesh,
         const DomainField<ValueType>& domainField,
         const std::vector<SurfaceBoundary<ValueType>>& boundaryConditions
     )
-        : GeometricFieldMixin<ValueType>(exec, mesh, domainField),
+        : GeometricFieldMixin<ValueType>(exec, fieldName, mesh, domainField),
           boundaryConditions_(boundaryConditions)
     {}
 
     /* @brief Constructor for a surfaceField with a given internal field
      *
      * @param exec The executor
+     * @param fieldName The name of the field
      * @param mesh The underlying mesh
      * @param internalField the underlying internal field
      * @param boundaryConditions a vector of boundary conditions
      */
     SurfaceField(
         const Executor& exec,
+        std::string fieldName,
         const UnstructuredMesh& mesh,
         const Field<ValueType>& internalField,
         const BoundaryFields<ValueType>& boundaryFields,
         const std::vector<SurfaceBoundary<ValueType>>& boundaryConditions
     )
-        : GeometricFieldMixin<ValueType>(exec, mesh, {exec, mesh, internalField, boundaryFields}),
+        : GeometricFieldMixin<ValueType>(
+            exec, fieldName, mesh, DomainField<ValueType>(exec, internalField, boundaryFields)
+        ),
           boundaryConditions_(boundaryConditions)
     {}
 
diff --git a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
index 1a91d1d..523e6d9 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
@@ -146,7 +146,7 @@ public:
     }
 
     SurfaceField<ValueType>
-    interpolate(const SurfaceField<ValueType>& flux, const VolumeField<ValueType>& src) const
+    interpolate(const SurfaceField<scalar>& flux, const VolumeField<ValueType>& src) const
     {
         std::string name = "interpolated_" + src.name;
         SurfaceField<ValueType> dst(
-- 
2.43.0


From 6a70984dbf7e5e117f56f5f152456c5de7af1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 16/48] fix: Upwind::weight with a flux sets the weights
 instead of leaving them uninitialised

---
 .../cellCentred/interpolation/upwind.hpp         | 10 +++++++++-
 .../cellCentred/interpolation/upwind.cpp         | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
index 1e5979e..8443a58 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
@@ -35,6 +35,14 @@ void computeUpwindInterpolation(
     SurfaceField<ValueType>& dst
 );
 
+/* @brief weights of the upwind interpolation: 1 where the owner is upwind and on the boundary,
+** 0 where the neighbour is
+**
+**@param flux the flux that determines the direction
+**@param weights the target field
+*/
+void computeUpwindWeights(const SurfaceField<scalar>& flux, SurfaceField<scalar>& weights);
+
 template<typename ValueType>
 class Upwind : public SurfaceInterpolationFactory<ValueType>::template Register<Upwind<ValueType>>
 {
@@ -80,7 +88,7 @@ public:
         SurfaceField<scalar>& weight
     ) const override
     {
-        // geometryScheme_->weights(flux, src, weight);
+        computeUpwindWeights(flux, weight);
     }
 
     std::unique_ptr<SurfaceInterpolationFactory<ValueType>> clone() const override
diff --git a/src/finiteVolume/cellCentred/interpolation/upwind.cpp b/src/finiteVolume/cellCentred/interpolation/upwind.cpp
index 1cdd94a..81cbc29 100644
--- a/src/finiteVolume/cellCentred/interpolation/upwind.cpp
+++ b/src/finiteVolume/cellCentred/interpolation/upwind.cpp
@@ -55,6 +55,22 @@ void computeUpwindInterpolation(
     );
 }
 
+void computeUpwindWeights(const SurfaceField<scalar>& flux, SurfaceField<scalar>& weights)
+{
+    auto weightS = weights.internalField().view();
+    const auto fluxS = flux.internalField().view();
+    size_t nInternalFaces = weights.mesh().nInternalFaces();
+
+    NeoFOAM::parallelFor(
+        weights.exec(),
+        {0, weightS.size()},
+        KOKKOS_LAMBDA(const size_t facei) {
+            weightS[facei] = (facei >= nInternalFaces || fluxS[facei] >= 0) ? 1.0 : 0.0;
+        },
+        "computeUpwindWeights"
+    );
+}
+
 #define NF_DECLARE_COMPUTE_IMP_UPW_INT(TYPENAME)                                                   \
     template void computeUpwindInterpolation<                                                      \
         TYPENAME>(const VolumeField<TYPENAME>&, const SurfaceField<scalar>&, const SurfaceField<scalar>&, SurfaceField<TYPENAME>&)
-- 
2.43.0


From 6b925825c1dc3b86363ffcffa27f137b01c6aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 17/48] fix: explicit divergence mixed the previous content of
 the output into the result

---
 src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..11b5819 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -113,6 +113,7 @@ void computeDivExp(
 
     size_t nInternalFaces = mesh.nInternalFaces();
     size_t nBoundaryFaces = mesh.nBoundaryFaces();
+    fill(divPhi, zero<ValueType>());
     computeDiv<ValueType>(
         exec,
         nInternalFaces,
-- 
2.43.0


From 41ff89e3b1f45bdebd3504f8682178eee02885b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 18/48] fix: Gauss gradient mixed the previous content of the
 output into the result

---
 src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
index 9f0c586..fbf8cae 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
@@ -27,6 +27,8 @@ void computeGrad(
     );
     surfInterp.interpolate(in, phif);
 
+    fill(out.internalField(), zero<Vector>());
+
     auto surfGradPhi = out.internalField().view();
 
     const auto [surfFaceCells, sBSf, surfPhif, surfOwner, surfNeighbour, faceAreaS, surfV] = spans(
-- 
2.43.0


From 047889f5fee28ef9010de1faa7dfe86691d72a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 19/48] fix: explicit laplacian mixed the previous content of
 the output into the result

---
 src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..18c58ce 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,6 +32,7 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
+    fill(lapPhi, zero<ValueType>());
     const auto [result, faceArea, fnGrad, vol] =
         spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
 
-- 
2.43.0


From f27ca36af0b191d6cd17952e770e5b8cb542af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 20/48] fix: explicit laplacian ignored the diffusion
 coefficient

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 18c58ce..ca4ea70 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -33,8 +33,13 @@ void computeLaplacianExp(
     );
 
     fill(lapPhi, zero<ValueType>());
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -44,7 +49,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -55,7 +60,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From 49de7d12d1ac7abeb4cecfd4294c74eccc649cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 21/48] fix: implicit divergence ignored the gradient of
 fixed-gradient boundaries

---
 .../cellCentred/operators/gaussGreenDiv.cpp         | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 11b5819..71cc497 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -202,11 +202,12 @@ void computeDivImp(
         }
     );
 
-    auto [refGradient, value, valueFraction, refValue] = spans(
+    auto [refGradient, value, valueFraction, refValue, deltaCoeffs] = spans(
         phi.boundaryField().refGrad(),
         phi.boundaryField().value(),
         phi.boundaryField().valueFraction(),
-        phi.boundaryField().refValue()
+        phi.boundaryField().refValue(),
+        mesh.boundaryMesh().deltaCoeffs()
     );
 
     parallelFor(
@@ -222,9 +223,11 @@ void computeDivImp(
 
             matrix.values[rowOwnStart + diagOffs[own]] +=
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+            rhs[own] -=
+                (flux * operatorScalingOwn
+                 * (valueFraction[bcfacei] * refValue[bcfacei]
+                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
+                          * (1.0 / deltaCoeffs[bcfacei])));
         }
     );
 };
-- 
2.43.0


From f53df5dcbe354fba95677193226cb210b64f38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 22/48] fix: data race between the boundary faces of a cell in
 implicit divergence and laplacian

---
 .../cellCentred/operators/gaussGreenDiv.cpp    | 17 ++++++++++-------
 .../operators/gaussGreenLaplacian.cpp          | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 71cc497..098b397 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -221,13 +221,16 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
-                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
-                          * (1.0 / deltaCoeffs[bcfacei])));
+            // a cell may have several boundary faces
+            Kokkos::atomic_add(
+                &matrix.values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
+            );
+            ValueType boundaryRhs = flux * operatorScalingOwn
+                                  * (valueFraction[bcfacei] * refValue[bcfacei]
+                                     + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
+                                           * (1.0 / deltaCoeffs[bcfacei]));
+            Kokkos::atomic_sub(&rhs[own], boundaryRhs);
         }
     );
 };
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index ca4ea70..2b993c9 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -169,13 +169,17 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            // a cell may have several boundary faces
+            Kokkos::atomic_sub(
+                &values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * valueFraction[bcfacei] * deltaCoeffs[facei]
+                    * one<ValueType>()
+            );
+            ValueType boundaryRhs =
+                flux * operatorScalingOwn
+                * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                   + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]);
+            Kokkos::atomic_sub(&rhs[own], boundaryRhs);
         }
     );
 }
-- 
2.43.0


From 3c40f734efcaf20e6e21cc83162fdbde8cb0f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 23/48] fix: explicit divergence of vector fields did not
 compile

---
 .../finiteVolume/cellCentred/operators/divOperator.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index b0c0711..33330a4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -114,7 +114,7 @@ public:
         VolumeField<ValueType>& phi,
         std::unique_ptr<DivOperatorFactory<ValueType>> divOperatorStrategy
     )
-        : dsl::OperatorMixin<VolumeField<scalar>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
+        : dsl::OperatorMixin<VolumeField<ValueType>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
           faceFlux_(faceFlux), divOperatorStrategy_(std::move(divOperatorStrategy)) {};
 
     DivOperator(
@@ -126,10 +126,10 @@ public:
           faceFlux_(faceFlux), divOperatorStrategy_(nullptr) {};
 
 
-    void explicitOperation(Field<scalar>& source) const
+    void explicitOperation(Field<ValueType>& source) const
     {
         NF_ASSERT(divOperatorStrategy_, "DivOperatorStrategy not initialized");
-        NeoFOAM::Field<NeoFOAM::scalar> tmpsource(source.exec(), source.size(), 0.0);
+        NeoFOAM::Field<ValueType> tmpsource(source.exec(), source.size(), zero<ValueType>());
         const auto operatorScaling = this->getCoefficient();
         divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
         source += tmpsource;
-- 
2.43.0


From 0134bc64abb0d07f623ba7bf1adfb9c55356d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 24/48] fix: laplacian of vector fields into a field did not
 compile

---
 .../finiteVolume/cellCentred/operators/laplacianOperator.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
index 297f881..7686f9d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
@@ -147,7 +147,7 @@ public:
     //     laplacianOperatorStrategy_->laplacian(ls, gamma_, getField());
     // };
 
-    void laplacian(VolumeField<scalar>& lapPhi)
+    void laplacian(VolumeField<ValueType>& lapPhi)
     {
         const auto operatorScaling = this->getCoefficient();
         laplacianOperatorStrategy_->laplacian(lapPhi, gamma_, this->getField(), operatorScaling);
-- 
2.43.0


From f4e930b26268eca0ed5ccf908434a0f9df7bc248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 25/48] fix: explicit time derivative ignored its coefficient

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..732dde9 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            sourceSpan[celli] += operatorScaling[celli] * dtInver
+                               * (field[celli] - oldField[celli]) * vol[celli];
         }
     );
 }
-- 
2.43.0


From 75f8d2c6cac220e32053925583065544d12687b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 26/48] fix: source terms in expressions did nothing

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..ce37ae6 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,9 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    // needed to be recognised as an explicit and implicit operator by SpatialOperator
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0


From ff860b4bb0124e9eba31e1a66c1286ef339d45ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 27/48] fix: solvers assembled into a sparsity pattern other
 than that of the operators

---
 include/NeoFOAM/dsl/solver.hpp                    | 6 ++++--
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..ecdf5de 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -63,11 +63,13 @@ void solve(
         // solve sparse matrix system
         using ValueType = typename FieldType::ElementType;
 
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solution.mesh());
+        // the pattern of the operators, another one may order the columns differently
+        auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solution.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         exp.implicitOperation(ls);
         auto expTmp = exp.explicitOperation(solution.mesh().nCells());
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..27ea65c 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -57,11 +57,13 @@ public:
         using ValueType = typename SolutionFieldType::ElementType;
 
         // TODO decouple from fvcc specific implementation
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solutionField.mesh());
+        // the pattern of the operators, another one may order the columns differently
+        auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solutionField.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         eqn.implicitOperation(ls);
 
-- 
2.43.0


From 27f75518af454f8d56821380dd629681bfd2a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 28/48] fix: dsl::solve gave time integrators the schemes as
 solution dictionary

---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index ecdf5de..cd62226 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From 43cd4938ee1ab52d036a97e9e142b1475e22abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 29/48] fix: backward Euler dropped the explicit terms of the
 equation

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index 27ea65c..1d8ac70 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -70,6 +70,14 @@ public:
         auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        // subtract the explicit source term from the rhs
+        auto [vol, expSource, rhs] = spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
 
-- 
2.43.0


From fdd6b40cc4b4e8ad4561f056fb37e475cc9d1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 30/48] fix: implicit and Runge-Kutta solves left the boundary
 values of the previous solution

---
 include/NeoFOAM/dsl/solver.hpp                    | 1 +
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 1 +
 src/timeIntegration/rungeKutta.cpp                | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index cd62226..7a829ce 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -85,6 +85,7 @@ void solve(
 
         auto solver = NeoFOAM::la::Solver(solution.exec(), fvSolution);
         solver.solve(ls, solution.internalField());
+        solution.correctBoundaryConditions();
     }
 }
 
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index 1d8ac70..7d6b4f7 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -80,6 +80,7 @@ public:
 
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
+        solutionField.correctBoundaryConditions();
 
         // check if executor is GPU
         if (std::holds_alternative<NeoFOAM::GPUExecutor>(eqn.exec()))
diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..d18ec72 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -51,6 +51,7 @@ void RungeKutta<SolutionFieldType>::solve(
 
     // Copy solution out. (Fence is in sundails free)
     NeoFOAM::sundials::sunNVectorToField(solution_.sunNVector(), solutionField.internalField());
+    solutionField.correctBoundaryConditions();
     oldSolutionField.internalField() = solutionField.internalField();
 }
 
-- 
2.43.0


From a96e1cdde015c96c6da443d2ef912cdbd84c5be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 31/48] fix: copying a Runge-Kutta integrator used a null
 sundials context

---
 src/timeIntegration/rungeKutta.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index d18ec72..0798795 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -8,17 +8,9 @@ namespace NeoFOAM::timeIntegration
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
+    : Base(other)
 {
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
+    // The sundials objects belong to one instance. The copy sets up its own when it first solves.
 }
 
 template<typename SolutionFieldType>
-- 
2.43.0


From e33da55a880848ba37bab3e9573f890cbe92db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 32/48] fix: Communicator did not compile for any field
 (elements are accessed through a view)

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..f58ca59 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,12 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        auto fieldView = field.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = fieldView[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,11 +133,13 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto fieldView = field.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                fieldView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] =
+                    rankBuffer[data];
         }
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
-- 
2.43.0


From 713eb06f204d347ad228ded81d55c84ab24b0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 33/48] fix: communications in progress pointed to freed
 buffers after another one was started

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index f58ca59..812826e 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -150,7 +151,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers (CommBuffer_ points to these). */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From 5451330d6a026b1ed9aa06b0f4cf7bb93df4da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 34/48] fix: scaling a Vector by one of its own components used
 the component after it had changed

---
 include/NeoFOAM/core/primitives/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/primitives/vector.hpp b/include/NeoFOAM/core/primitives/vector.hpp
index f366a7e..087e927 100644
--- a/include/NeoFOAM/core/primitives/vector.hpp
+++ b/include/NeoFOAM/core/primitives/vector.hpp
@@ -131,7 +131,7 @@ public:
 
 
     KOKKOS_INLINE_FUNCTION
-    Vector& operator*=(const scalar& rhs)
+    Vector& operator*=(const scalar rhs)
     {
         cmpts_[0] *= rhs;
         cmpts_[1] *= rhs;
-- 
2.43.0


From bfa9249eef407c70be5bd419af6aa31e6aa91ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 35/48] fix: assembling an fvcc::Expression without a time step
 compiles

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 5870777..e3ec479 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -118,7 +118,8 @@ public:
             auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
             auto expSourceSpan = expSource.view();
 
-            ls_ = expr_.implicitOperation();
+            ls_.reset();
+            expr_.implicitOperation(ls_);
             auto rhs = ls_.rhs().view();
             // we subtract the explicit source term from the rhs
             NeoFOAM::parallelFor(
-- 
2.43.0


From 3c1878ac1e7f7fe7c5d4de68a0aa5450a8871942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 36/48] fix: setReference of an fvcc::Expression compiles

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index e3ec479..a34ae46 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -160,7 +160,7 @@ public:
     {
         // TODO currently assumes that matrix is already assembled
         const auto diagOffset = sparsityPattern_->diagOffset().view();
-        const auto rowPtrs = ls_.matrix().rowPtrs();
+        const auto rowPtrs = ls_.matrix().rowPtrs().view();
         auto rhs = ls_.rhs().view();
         auto values = ls_.matrix().values().view();
         NeoFOAM::parallelFor(
-- 
2.43.0


From 51a197674c7587074c0f0076b593541edbb37ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 37/48] fix: the residual of an fvcc::Expression (operator&)
 compiles

---
 .../finiteVolume/cellCentred/dsl/expression.hpp       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index a34ae46..025e745 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -198,20 +198,19 @@ operator&(const Expression<ValueType, IndexType> expr, const VolumeField<ValueTy
         psi.boundaryConditions()
     );
 
-    auto [result, b, x] =
-        spans(resultField.internalField(), expr.linearSystem().rhs(), psi.internalField());
-    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view();
+    auto [result, x] = spans(resultField.internalField(), psi.internalField());
+    const auto [matrix, b] = expr.linearSystem().view();
 
     NeoFOAM::parallelFor(
         resultField.exec(),
         {0, result.size()},
         KOKKOS_LAMBDA(const std::size_t rowi) {
-            IndexType rowStart = rowPtrs[rowi];
-            IndexType rowEnd = rowPtrs[rowi + 1];
+            IndexType rowStart = matrix.rowOffs[rowi];
+            IndexType rowEnd = matrix.rowOffs[rowi + 1];
             ValueType sum = 0.0;
             for (IndexType coli = rowStart; coli < rowEnd; coli++)
             {
-                sum += values[coli] * x[colIdxs[coli]];
+                sum += matrix.values[coli] * x[matrix.colIdxs[coli]];
             }
             result[rowi] = sum - b[rowi];
         }
-- 
2.43.0


From 05930168d0fcf4b95c7c7afc20b91304e04965fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 38/48] fix: fvcc::Expression::solve no longer ends the program
 after solving

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 025e745..3210e0d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -152,7 +152,6 @@ public:
             auto exec = psi_.exec();
             auto solver = NeoFOAM::la::Solver(exec, fvSolution_);
             solver.solve(ls_, psi_.internalField());
-            NF_ERROR_EXIT("No linear solver is available, build with -DNEOFOAM_WITH_GINKGO=ON");
         }
     }
 
-- 
2.43.0


From afecc961138a3958d185f3999baf13dee0b41125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 39/48] fix: explicit time derivatives entered an
 fvcc::Expression with the cell volume squared

---
 .../NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 3210e0d..5f9c8a3 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -80,8 +80,11 @@ public:
     {
         auto vol = psi_.mesh().cellVolumes().view();
         auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
-        expr_.explicitOperation(expSource, t, dt);
         auto expSourceView = expSource.view();
+        // in contrast to spatial operators, temporal operators are already integrated over the cells
+        Field<ValueType> expDdt(exec(), psi_.mesh().nCells(), zero<ValueType>());
+        expr_.explicitOperation(expDdt, t, dt);
+        auto expDdtView = expDdt.view();
         fill(ls_.rhs(), zero<ValueType>());
         fill(ls_.matrix().values(), zero<ValueType>());
         expr_.implicitOperation(ls_);
@@ -92,7 +95,7 @@ public:
         NeoFOAM::parallelFor(
             exec(),
             {0, rhs.size()},
-            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSourceView[i] * vol[i]; }
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSourceView[i] * vol[i] + expDdtView[i]; }
         );
     }
 
-- 
2.43.0


From db3da50aff87464b95393a6faaaaaf01f9cce833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 40/48] fix: copies of a solver with the Ginkgo backend had no
 solver

---
 include/NeoFOAM/linearAlgebra/ginkgo.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/ginkgo.hpp b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
index 7b2f279..dcf2ff8 100644
--- a/include/NeoFOAM/linearAlgebra/ginkgo.hpp
+++ b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
@@ -64,8 +64,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<GinkgoSolver>(*this);
     }
 
 private:
-- 
2.43.0


From cfb22d6451429f87d1555ec8bd4d17eacca1adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 41/48] fix: copies of a solver with the PETSc backend had no
 solver

---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d5d748a..0a844b3 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -70,8 +70,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<petscSolver>(*this);
     }
 
 
-- 
2.43.0


From 08128a500caf7f7c0ba6c4e44cb6bc043b7488c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 42/48] fix: the PETSc backend put the indices of large systems
 on the stack

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 52960c7..ae13f24 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -7,6 +7,8 @@
 
 #if NF_WITH_PETSC
 
+#include <vector>
+
 #include <Kokkos_Core.hpp>
 #include <petscvec_kokkos.hpp>
 #include <petscmat.h>
@@ -70,9 +72,9 @@ public:
     {
         std::size_t size = sys.matrix().values().size();
         std::size_t nrows = sys.rhs().size();
-        PetscInt colIdx[size];
-        PetscInt rowIdx[size];
-        PetscInt rhsIdx[nrows];
+        std::vector<PetscInt> colIdx(size);
+        std::vector<PetscInt> rowIdx(size);
+        std::vector<PetscInt> rhsIdx(nrows);
 
         // colIdx = sys.matrix().colIdxs().data();
 
@@ -134,8 +136,8 @@ public:
         }
         VecDuplicate(rhs_, &sol_);
 
-        VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx);
+        VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data());
+        MatSetPreallocationCOO(Amat_, size, colIdx.data(), rowIdx.data());
 
         KSPCreate(PETSC_COMM_WORLD, &ksp_);
         KSPSetFromOptions(ksp_);
-- 
2.43.0


From 9b3c31798439485f149f0dbdcf82a4f80a109f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 43/48] fix: the PETSc backend misplaced the entries behind a
 row without entries

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index ae13f24..c21546b 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -104,7 +104,7 @@ public:
         size_t rowOffset = rowPtrHost[rowI + 1];
         for (size_t index = 0; index < size; ++index)
         {
-            if (index == rowOffset)
+            while (index == rowOffset)
             {
                 rowI++;
                 rowOffset = rowPtrHost[rowI + 1];
-- 
2.43.0


From eb43d7d8efcc80cdb7ebc434cf10cbfb7e410e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 44/48] fix: the range of a boundary was read from memory of
 the device by the host

---
 include/NeoFOAM/fields/boundaryFields.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 4b48b76..e345c19 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -133,7 +133,8 @@ public:
      */
     std::pair<localIdx, localIdx> range(localIdx patchId) const
     {
-        return {offset_.data()[patchId], offset_.data()[patchId + 1]};
+        auto hostOffset = offset_.copyToHost();
+        return {hostOffset.data()[patchId], hostOffset.data()[patchId + 1]};
     }
 
 private:
-- 
2.43.0


From 9a9831da72e9ad097b66e269322aa543db5d0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 45/48] fix: the communicator accessed fields of a device from
 the host

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 812826e..37fa574 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -102,7 +102,9 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
-        auto fieldView = field.view();
+        // the memory of the field might not be accessible from the host
+        const auto hostField = field.copyToHost();
+        auto fieldView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
@@ -134,7 +136,8 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
-        auto fieldView = field.view();
+        auto hostField = field.copyToHost();
+        auto fieldView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
@@ -142,6 +145,7 @@ public:
                 fieldView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] =
                     rankBuffer[data];
         }
+        field = hostField.copyToExecutor(field.exec());
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
     }
-- 
2.43.0


From 91a0d4a0e18f54039e3910f2bcef348a93a45533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 46/48] fix: the finite volume operators did not compile with
 64-bit labels

---
 .../cellCentred/operators/surfaceIntegrate.hpp       |  6 +++---
 .../cellCentred/operators/gaussGreenDiv.cpp          |  6 +++---
 .../cellCentred/operators/surfaceIntegrate.cpp       | 12 ++++++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp
index a6b8c74..be078ab 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp
@@ -18,9 +18,9 @@ template<typename ValueType>
 void surfaceIntegrate(
     const Executor& exec,
     size_t nInternalFaces,
-    View<const int> neighbour,
-    View<const int> owner,
-    View<const int> faceCells,
+    View<const label> neighbour,
+    View<const label> owner,
+    View<const label> faceCells,
     View<const ValueType> flux,
     View<const scalar> v,
     View<ValueType> res,
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 098b397..7785ec8 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -23,9 +23,9 @@ void computeDiv(
     const Executor& exec,
     size_t nInternalFaces,
     size_t nBoundaryFaces,
-    View<const int> neighbour,
-    View<const int> owner,
-    View<const int> faceCells,
+    View<const label> neighbour,
+    View<const label> owner,
+    View<const label> faceCells,
     View<const scalar> faceFlux,
     View<const ValueType> phiF,
     View<const scalar> v,
diff --git a/src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp b/src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp
index 3a33d94..c4d3164 100644
--- a/src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp
+++ b/src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp
@@ -12,9 +12,9 @@ template<typename ValueType>
 void surfaceIntegrate(
     const Executor& exec,
     size_t nInternalFaces,
-    View<const int> neighbour,
-    View<const int> owner,
-    View<const int> faceCells,
+    View<const label> neighbour,
+    View<const label> owner,
+    View<const label> faceCells,
     View<const ValueType> flux,
     View<const scalar> v,
     View<ValueType> res,
@@ -52,9 +52,9 @@ void surfaceIntegrate(
     template void surfaceIntegrate<TYPENAME>(                                                      \
         const Executor&,                                                                           \
         size_t,                                                                                    \
-        View<const int>,                                                                           \
-        View<const int>,                                                                           \
-        View<const int>,                                                                           \
+        View<const label>,                                                                         \
+        View<const label>,                                                                         \
+        View<const label>,                                                                         \
         View<const TYPENAME>,                                                                      \
         View<const scalar>,                                                                        \
         View<TYPENAME>,                                                                            \
-- 
2.43.0


From a2cb2b04bdbfb03ebecca25c767626924ff9ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 47/48] fix: copies of vectors for SUNDIALS referred to the
 vector of the original

---
 include/NeoFOAM/timeIntegration/sundials.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/sundials.hpp b/include/NeoFOAM/timeIntegration/sundials.hpp
index 5d8ba05..46ac305 100644
--- a/include/NeoFOAM/timeIntegration/sundials.hpp
+++ b/include/NeoFOAM/timeIntegration/sundials.hpp
@@ -269,7 +269,7 @@ public:
     SKVectorSerial() {};
     ~SKVectorSerial() = default;
     SKVectorSerial(const SKVectorSerial& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorSerial(SKVectorSerial&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorSerial& operator=(const SKVectorSerial& other) = delete;
@@ -306,7 +306,7 @@ public:
     SKVectorHostDefault() = default;
     ~SKVectorHostDefault() = default;
     SKVectorHostDefault(const SKVectorHostDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorHostDefault(SKVectorHostDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorHostDefault& operator=(const SKVectorHostDefault& other) = delete;
@@ -341,7 +341,7 @@ public:
     SKVectorDefault() = default;
     ~SKVectorDefault() = default;
     SKVectorDefault(const SKVectorDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorDefault(SKVectorDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorDefault& operator=(const SKVectorDefault& other) = delete;
-- 
2.43.0


From a11b6201fd291c80ef86ae6d4ea69cea010ebe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 48/48] fix: the geometry scheme and the implicit divergence
 did not compile in single precision

---
 src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp     | 2 +-
 src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 7785ec8..1ff7211 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -229,7 +229,7 @@ void computeDivImp(
             ValueType boundaryRhs = flux * operatorScalingOwn
                                   * (valueFraction[bcfacei] * refValue[bcfacei]
                                      + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
-                                           * (1.0 / deltaCoeffs[bcfacei]));
+                                           * (one<scalar>() / deltaCoeffs[bcfacei]));
             Kokkos::atomic_sub(&rhs[own], boundaryRhs);
         }
     );
diff --git a/src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp b/src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp
index 48ced51..102b43b 100644
--- a/src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp
+++ b/src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp
@@ -110,7 +110,7 @@ void BasicGeometryScheme::updateNonOrthDeltaCoeffs(
             scalar orthoDist = faceNormal & cellToCellDist;
 
 
-            nonOrthDeltaCoeff[facei] = 1.0 / std::max(orthoDist, 0.05 * mag(cellToCellDist));
+            nonOrthDeltaCoeff[facei] = 1.0 / std::max(orthoDist, static_cast<scalar>(0.05) * mag(cellToCellDist));
         }
     );
 
@@ -125,7 +125,7 @@ void BasicGeometryScheme::updateNonOrthDeltaCoeffs(
             scalar orthoDist = faceNormal & cellToCellDist;
 
 
-            nonOrthDeltaCoeff[facei] = 1.0 / std::max(orthoDist, 0.05 * mag(cellToCellDist));
+            nonOrthDeltaCoeff[facei] = 1.0 / std::max(orthoDist, static_cast<scalar>(0.05) * mag(cellToCellDist));
         }
     );
 }
-- 
2.43.0

