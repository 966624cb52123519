// Stand-in for the part of PETSc the project uses: vectors, matrices set by coordinates, and a solver that hands what it is given to a hook, which
// writes the answer. Objects are counted; calls in the wrong order, on dead objects or with sizes that do not fit are reported through misuse().
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

typedef std::int32_t PetscInt;
typedef std::int64_t PetscCount;
typedef double PetscScalar;
typedef double PetscReal;
typedef int PetscErrorCode;
typedef int PetscMPIInt;
typedef bool PetscBool;
#define PETSC_TRUE true
#define PETSC_FALSE false
#define PETSC_SUCCESS 0
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE (-1)
#define PETSC_DEFAULT (-2)
#define PETSC_NULL nullptr
#define PETSC_COMM_WORLD 1
#define PETSC_COMM_SELF 2
#define VECSEQ "seq"
#define VECSTANDARD "standard"
#define VECKOKKOS "kokkos"
#define VECSEQKOKKOS "seqkokkos"
#define MATSEQAIJ "seqaij"
#define MATAIJ "aij"
#define MATAIJKOKKOS "aijkokkos"
#define MATSEQAIJKOKKOS "seqaijkokkos"
#define KSPGMRES "gmres"
#define KSPCG "cg"
#define KSPBCGS "bcgs"
#define PetscCall(...)                                                                                                 \
    do                                                                                                                 \
    {                                                                                                                  \
        PetscErrorCode ierr_ = __VA_ARGS__;                                                                            \
        if (ierr_) return ierr_;                                                                                       \
    } while (0)
#define PetscCallVoid(...)                                                                                             \
    do                                                                                                                 \
    {                                                                                                                  \
        PetscErrorCode ierr_ = __VA_ARGS__;                                                                            \
        if (ierr_) return;                                                                                             \
    } while (0)
#define PetscFunctionBeginUser
#define PetscFunctionReturn(x) return x
typedef enum { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES } InsertMode;
typedef const char* VecType;
typedef const char* MatType;
typedef const char* KSPType;

namespace petsc_standin
{
struct Misuse : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
[[noreturn]] inline void misuse(const std::string& what) { throw Misuse("PETSc stand-in: " + what); }
struct Object
{
    static long& live()
    {
        static long n = 0;
        return n;
    }
    Object() { live()++; }
    ~Object() { live()--; }
    Object(const Object&) = delete;
    int references = 1;
};
struct VecObject : Object
{
    PetscInt n = -1;
    std::string type;
    bool preallocated = false;
    std::vector<PetscInt> coo;
    std::vector<double> v;
    int arrays = 0;
};
struct MatObject : Object
{
    PetscInt m = -1, n = -1;
    std::string type;
    bool preallocated = false;
    std::vector<std::pair<PetscInt, PetscInt>> coo;
    std::map<std::pair<PetscInt, PetscInt>, double> v;
};
struct KspObject : Object
{
    MatObject* A = nullptr;
    std::string type;
    bool guessNonzero = false;
    double rtol = 1e-5, atol = 1e-50;
};
struct Solved
{
    const MatObject* A;
    const VecObject* b;
    const VecObject* x;
    bool guessNonzero;
    std::vector<double>& answer;
};
inline std::function<void(const Solved&)>& hook()
{
    static std::function<void(const Solved&)> h;
    return h;
}
inline bool& initialized()
{
    static bool b = false;
    return b;
}
inline void need(const void* p, const char* what)
{
    if (!p) misuse(std::string(what) + " of a null object");
}
template<typename T>
void destroy(T** p)
{
    if (*p && --(*p)->references == 0) delete *p;
    *p = nullptr;
}
}
typedef petsc_standin::VecObject* Vec;
typedef petsc_standin::MatObject* Mat;
typedef petsc_standin::KspObject* KSP;
typedef int PetscViewer;
#define PETSC_VIEWER_STDOUT_WORLD 0

inline PetscErrorCode PetscInitialize(int*, char***, const char*, const char*)
{
    petsc_standin::initialized() = true;
    return 0;
}
inline PetscErrorCode PetscInitializeNoArguments()
{
    petsc_standin::initialized() = true;
    return 0;
}
inline PetscErrorCode PetscInitialized(PetscBool* b)
{
    *b = petsc_standin::initialized();
    return 0;
}
inline PetscErrorCode PetscFinalize()
{
    petsc_standin::initialized() = false;
    return 0;
}
inline void petscUp()
{
    if (!petsc_standin::initialized()) petsc_standin::misuse("used before PetscInitialize");
}

// ---- vectors
inline PetscErrorCode VecCreate(int, Vec* v)
{
    petscUp();
    *v = new petsc_standin::VecObject();
    return 0;
}
inline PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N)
{
    petsc_standin::need(v, "VecSetSizes");
    v->n = N == PETSC_DECIDE ? n : N;
    if (v->n < 0 || (n >= 0 && N >= 0 && n != N)) petsc_standin::misuse("VecSetSizes: sizes do not fit");
    v->v.assign(size_t(v->n), 0.0);
    return 0;
}
inline PetscErrorCode VecSetType(Vec v, VecType t)
{
    petsc_standin::need(v, "VecSetType");
    v->type = t;
    return 0;
}
inline PetscErrorCode VecSetFromOptions(Vec v)
{
    petsc_standin::need(v, "VecSetFromOptions");
    if (v->type.empty()) v->type = VECSEQ;
    return 0;
}
inline PetscErrorCode VecCreateSeq(int c, PetscInt n, Vec* v)
{
    VecCreate(c, v);
    VecSetSizes(*v, n, n);
    return VecSetType(*v, VECSEQ);
}
inline PetscErrorCode VecDuplicate(Vec v, Vec* w)
{
    petsc_standin::need(v, "VecDuplicate");
    if (v->n < 0 || v->type.empty()) petsc_standin::misuse("VecDuplicate of a vector without size or type");
    VecCreate(PETSC_COMM_SELF, w);
    VecSetSizes(*w, v->n, v->n);
    return VecSetType(*w, v->type.c_str());
}
inline PetscErrorCode VecGetSize(Vec v, PetscInt* n)
{
    petsc_standin::need(v, "VecGetSize");
    *n = v->n;
    return 0;
}
inline PetscErrorCode VecSet(Vec v, PetscScalar x)
{
    petsc_standin::need(v, "VecSet");
    for (auto& y : v->v) y = x;
    return 0;
}
inline PetscErrorCode VecZeroEntries(Vec v) { return VecSet(v, 0.0); }
inline PetscErrorCode VecSetPreallocationCOO(Vec v, PetscCount n, const PetscInt i[])
{
    petsc_standin::need(v, "VecSetPreallocationCOO");
    if (v->n < 0 || v->type.empty()) petsc_standin::misuse("VecSetPreallocationCOO before size and type");
    v->coo.assign(i, i + n);
    v->preallocated = true;
    for (PetscInt k : v->coo)
        if (k >= v->n) petsc_standin::misuse("VecSetPreallocationCOO: index beyond the end");
    return 0;
}
inline PetscErrorCode VecSetValuesCOO(Vec v, const PetscScalar a[], InsertMode mode)
{
    petsc_standin::need(v, "VecSetValuesCOO");
    if (!v->preallocated) petsc_standin::misuse("VecSetValuesCOO before VecSetPreallocationCOO");
    // repeated coordinates are summed; INSERT_VALUES replaces what was there before the call
    if (mode == INSERT_VALUES)
        for (PetscInt k : v->coo)
            if (k >= 0) v->v[size_t(k)] = 0;
    for (size_t k = 0; k < v->coo.size(); k++)
        if (v->coo[k] >= 0) v->v[size_t(v->coo[k])] += a[k];
    return 0;
}
inline PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt i[], const PetscScalar a[], InsertMode mode)
{
    petsc_standin::need(v, "VecSetValues");
    for (PetscInt k = 0; k < n; k++)
    {
        if (i[k] < 0) continue;
        if (i[k] >= v->n) petsc_standin::misuse("VecSetValues: index beyond the end");
        if (mode == INSERT_VALUES) v->v[size_t(i[k])] = a[k];
        else v->v[size_t(i[k])] += a[k];
    }
    return 0;
}
inline PetscErrorCode VecAssemblyBegin(Vec) { return 0; }
inline PetscErrorCode VecAssemblyEnd(Vec) { return 0; }
inline PetscErrorCode VecGetArray(Vec v, PetscScalar** a)
{
    petsc_standin::need(v, "VecGetArray");
    v->arrays++;
    *a = v->v.data();
    return 0;
}
inline PetscErrorCode VecRestoreArray(Vec v, PetscScalar** a)
{
    petsc_standin::need(v, "VecRestoreArray");
    if (--v->arrays < 0) petsc_standin::misuse("VecRestoreArray without VecGetArray");
    if (a) *a = nullptr;
    return 0;
}
inline PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** a)
{
    petsc_standin::need(v, "VecGetArrayRead");
    *a = v->v.data();
    return 0;
}
inline PetscErrorCode VecRestoreArrayRead(Vec v, const PetscScalar** a)
{
    petsc_standin::need(v, "VecRestoreArrayRead");
    if (a) *a = nullptr;
    return 0;
}
inline PetscErrorCode VecView(Vec, PetscViewer) { return 0; }
inline PetscErrorCode VecDestroy(Vec* v)
{
    petsc_standin::destroy(v);
    return 0;
}

// ---- matrices
inline PetscErrorCode MatCreate(int, Mat* A)
{
    petscUp();
    *A = new petsc_standin::MatObject();
    return 0;
}
inline PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N)
{
    petsc_standin::need(A, "MatSetSizes");
    A->m = M == PETSC_DECIDE ? m : M;
    A->n = N == PETSC_DECIDE ? n : N;
    if (A->m < 0 || A->n < 0) petsc_standin::misuse("MatSetSizes: no sizes");
    return 0;
}
inline PetscErrorCode MatSetType(Mat A, MatType t)
{
    petsc_standin::need(A, "MatSetType");
    A->type = t;
    return 0;
}
inline PetscErrorCode MatSetFromOptions(Mat A)
{
    petsc_standin::need(A, "MatSetFromOptions");
    if (A->type.empty()) A->type = MATAIJ;
    return 0;
}
inline PetscErrorCode MatSetPreallocationCOO(Mat A, PetscCount n, PetscInt i[], PetscInt j[])
{
    petsc_standin::need(A, "MatSetPreallocationCOO");
    if (A->m < 0 || A->type.empty()) petsc_standin::misuse("MatSetPreallocationCOO before size and type");
    A->coo.clear();
    A->v.clear();
    for (PetscCount k = 0; k < n; k++)
    {
        if (i[k] >= A->m || j[k] >= A->n) petsc_standin::misuse("MatSetPreallocationCOO: index beyond the end");
        A->coo.push_back({i[k], j[k]});
        if (i[k] >= 0 && j[k] >= 0) A->v[A->coo.back()] = 0.0;
    }
    A->preallocated = true;
    return 0;
}
inline PetscErrorCode MatSetValuesCOO(Mat A, const PetscScalar a[], InsertMode mode)
{
    petsc_standin::need(A, "MatSetValuesCOO");
    if (!A->preallocated) petsc_standin::misuse("MatSetValuesCOO before MatSetPreallocationCOO");
    if (mode == INSERT_VALUES)
        for (auto& e : A->v) e.second = 0;
    for (size_t k = 0; k < A->coo.size(); k++)
        if (A->coo[k].first >= 0 && A->coo[k].second >= 0) A->v[A->coo[k]] += a[k];
    return 0;
}
inline PetscErrorCode MatZeroEntries(Mat A)
{
    petsc_standin::need(A, "MatZeroEntries");
    for (auto& e : A->v) e.second = 0;
    return 0;
}
inline PetscErrorCode MatTranspose(Mat A)
{
    petsc_standin::need(A, "MatTranspose");
    return 0;
}
inline PetscErrorCode MatView(Mat, PetscViewer) { return 0; }
inline PetscErrorCode MatDestroy(Mat* A)
{
    petsc_standin::destroy(A);
    return 0;
}

// ---- solvers
inline PetscErrorCode KSPCreate(int, KSP* k)
{
    petscUp();
    *k = new petsc_standin::KspObject();
    return 0;
}
inline PetscErrorCode KSPSetFromOptions(KSP k)
{
    petsc_standin::need(k, "KSPSetFromOptions");
    return 0;
}
inline PetscErrorCode KSPSetUp(KSP k)
{
    petsc_standin::need(k, "KSPSetUp");
    return 0;
}
inline PetscErrorCode KSPSetType(KSP k, KSPType t)
{
    petsc_standin::need(k, "KSPSetType");
    k->type = t;
    return 0;
}
inline PetscErrorCode KSPSetTolerances(KSP k, PetscReal r, PetscReal a, PetscReal, PetscInt)
{
    petsc_standin::need(k, "KSPSetTolerances");
    k->rtol = r;
    k->atol = a;
    return 0;
}
inline PetscErrorCode KSPSetInitialGuessNonzero(KSP k, PetscBool b)
{
    petsc_standin::need(k, "KSPSetInitialGuessNonzero");
    k->guessNonzero = b;
    return 0;
}
inline PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat P)
{
    petsc_standin::need(k, "KSPSetOperators");
    petsc_standin::need(A, "KSPSetOperators");
    petsc_standin::need(P, "KSPSetOperators");
    A->references++;
    if (k->A) petsc_standin::destroy(&k->A);
    k->A = A;
    return 0;
}
inline PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    petsc_standin::need(k, "KSPSolve");
    petsc_standin::need(b, "KSPSolve");
    petsc_standin::need(x, "KSPSolve");
    if (!k->A) petsc_standin::misuse("KSPSolve without an operator");
    if (k->A->m != b->n || k->A->n != x->n) petsc_standin::misuse("KSPSolve: sizes do not fit");
    std::vector<double> answer;
    petsc_standin::hook()({k->A, b, x, k->guessNonzero, answer});
    if (answer.size() != x->v.size()) petsc_standin::misuse("the harness gave no answer");
    std::copy(answer.begin(), answer.end(), x->v.begin());
    return 0;
}
inline PetscErrorCode KSPDestroy(KSP* k)
{
    if (*k && (*k)->references == 1 && (*k)->A) petsc_standin::destroy(&(*k)->A);
    petsc_standin::destroy(k);
    return 0;
}
