// A stand-in for the part of SUNDIALS this project uses, because SUNDIALS is not installed here: explicit Runge-Kutta steps of fixed
// size over the tables the project names.  As in ARKODE the integrator keeps its own state: what the caller puts in the output
// vector is not read, a step starts from where the last one ended.
#pragma once
#include <cstdint>
#include <memory>
#include <vector>
#include <Kokkos_Core.hpp>

#if defined(NEOFOAM_DP_SCALAR)
using sunrealtype = double;
#else
using sunrealtype = float; // built with SUNDIALS_PRECISION=SINGLE
#endif
using sunindextype = int64_t;
using SUNComm = int;
#define SUN_COMM_NULL 0

struct SUNContext_
{
    int alive = 1;
};
using SUNContext = SUNContext_*;
using SUNErrCode = int;
inline int SUNContext_Create(SUNComm, SUNContext* c)
{
    *c = new SUNContext_();
    return 0;
}
inline int SUNContext_Free(SUNContext* c)
{
    if (c)
    {
        delete *c;
        *c = nullptr;
    }
    return 0;
}

struct _generic_N_Vector
{
    void* content = nullptr;
    sunrealtype* (*data)(void*) = nullptr;
    sunindextype (*length)(void*) = nullptr;
    _generic_N_Vector* (*clone)(void*) = nullptr;
    void (*destroy)(_generic_N_Vector*) = nullptr;
};
using N_Vector = _generic_N_Vector*;
inline sunrealtype* N_VGetArrayPointer(N_Vector v) { return v->data(v->content); }
inline sunindextype N_VGetLength(N_Vector v) { return v->length(v->content); }

namespace sundials::kokkos
{
template<typename Exec>
class Vector
{
public:

    struct ViewType
    {
        sunrealtype* p = nullptr;
        size_t n = 0;
        sunrealtype& operator()(size_t i) const { return p[i]; }
        size_t extent(size_t) const { return n; }
        sunrealtype* data() const { return p; }
    };
    Vector() = default;
    Vector(size_t n, SUNContext ctx) : values_(std::make_shared<std::vector<sunrealtype>>(n, 0.0)), ctx_(ctx) { wrap(); }
    Vector(const Vector& o) : ctx_(o.ctx_)
    {
        if (o.values_)
        {
            values_ = std::make_shared<std::vector<sunrealtype>>(o.values_->size(), 0.0); // a clone of the shape, as in SUNDIALS
            wrap();
        }
    }
    Vector(Vector&& o) noexcept : values_(std::move(o.values_)), object_(std::move(o.object_)), ctx_(o.ctx_) { rewrap(); }
    Vector& operator=(const Vector& o)
    {
        Vector c(o);
        *this = std::move(c);
        return *this;
    }
    Vector& operator=(Vector&& o) noexcept
    {
        values_ = std::move(o.values_);
        object_ = std::move(o.object_);
        ctx_ = o.ctx_;
        rewrap();
        return *this;
    }
    ViewType View() { return {values_->data(), values_->size()}; }
    operator N_Vector() { return object_.get(); }
    operator N_Vector() const { return object_.get(); }

private:

    void wrap()
    {
        object_ = std::make_unique<_generic_N_Vector>();
        object_->data = [](void* c) { return static_cast<Vector*>(c)->values_->data(); };
        object_->length = [](void* c) { return sunindextype(static_cast<Vector*>(c)->values_->size()); };
        object_->clone = [](void* c)
        {
            auto* v = new Vector(*static_cast<Vector*>(c));
            return v->object_.get();
        };
        object_->destroy = [](N_Vector v) { delete static_cast<Vector*>(v->content); };
        rewrap();
    }
    void rewrap()
    {
        if (object_) object_->content = this;
    }
    std::shared_ptr<std::vector<sunrealtype>> values_;
    std::unique_ptr<_generic_N_Vector> object_;
    SUNContext ctx_ = nullptr;
};
template<typename V>
V* GetVec(N_Vector v)
{
    return static_cast<V*>(v->content);
}
}

// ---- ARKODE
enum ARKODE_ERKTableID
{
    ARKODE_ERK_NONE = -1,
    ARKODE_HEUN_EULER_2_1_2 = 0,
    ARKODE_FORWARD_EULER_1_1 = 19,
    ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 = 22
};
constexpr int ARK_NORMAL = 1, ARK_ONE_STEP = 2, ARK_SUCCESS = 0, ARK_ILL_INPUT = -22, ARK_MEM_NULL = -21;
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
namespace standin_ark
{
struct Mem
{
    ARKRhsFn f;
    sunrealtype t, h = 0;
    N_Vector y, tmp, k1, k2;
    void* user = nullptr;
    ARKODE_ERKTableID table = ARKODE_ERK_NONE;
    bool tolerances = false;
};
inline long& live()
{
    static long n = 0;
    return n;
}
inline void copy(N_Vector to, N_Vector from)
{
    std::copy_n(N_VGetArrayPointer(from), N_VGetLength(from), N_VGetArrayPointer(to));
}
}
inline void* ERKStepCreate(ARKRhsFn f, sunrealtype t0, N_Vector y0, SUNContext ctx)
{
    if (!f || !y0 || !ctx) return nullptr;
    auto* m = new standin_ark::Mem {f, t0, 0, y0->clone(y0->content), y0->clone(y0->content), y0->clone(y0->content), y0->clone(y0->content)};
    standin_ark::copy(m->y, y0);
    standin_ark::live()++;
    return m;
}
inline int ERKStepSetTableNum(void* m, ARKODE_ERKTableID t)
{
    static_cast<standin_ark::Mem*>(m)->table = t;
    return 0;
}
inline int ARKodeSetUserData(void* m, void* u)
{
    static_cast<standin_ark::Mem*>(m)->user = u;
    return 0;
}
inline int ARKodeSStolerances(void* m, sunrealtype, sunrealtype)
{
    static_cast<standin_ark::Mem*>(m)->tolerances = true;
    return 0;
}
inline int ARKodeSetFixedStep(void* m, sunrealtype h)
{
    static_cast<standin_ark::Mem*>(m)->h = h;
    return 0;
}
inline int ARKodeGetCurrentTime(void* m, sunrealtype* t)
{
    if (!m) return ARK_MEM_NULL;
    *t = static_cast<standin_ark::Mem*>(m)->t;
    return 0;
}
inline int ARKodeEvolve(void* mem, sunrealtype, N_Vector out, sunrealtype* tret, int)
{
    if (!mem) return ARK_MEM_NULL;
    auto& m = *static_cast<standin_ark::Mem*>(mem);
    auto n = N_VGetLength(m.y);
    auto* y = N_VGetArrayPointer(m.y);
    auto* k1 = N_VGetArrayPointer(m.k1);
    auto* k2 = N_VGetArrayPointer(m.k2);
    auto* tmp = N_VGetArrayPointer(m.tmp);
    if (m.h == 0) return ARK_ILL_INPUT;
    if (m.f(m.t, m.y, m.k1, m.user)) return -8;
    switch (m.table)
    {
    case ARKODE_FORWARD_EULER_1_1:
        for (sunindextype i = 0; i < n; i++) y[i] += m.h * k1[i];
        break;
    case ARKODE_HEUN_EULER_2_1_2:
        for (sunindextype i = 0; i < n; i++) tmp[i] = y[i] + m.h * k1[i];
        if (m.f(m.t + m.h, m.tmp, m.k2, m.user)) return -8;
        for (sunindextype i = 0; i < n; i++) y[i] += m.h * 0.5 * (k1[i] + k2[i]);
        break;
    case ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2:
        for (sunindextype i = 0; i < n; i++) tmp[i] = y[i] + 0.5 * m.h * k1[i];
        if (m.f(m.t + 0.5 * m.h, m.tmp, m.k2, m.user)) return -8;
        for (sunindextype i = 0; i < n; i++) y[i] += m.h * k2[i];
        break;
    default:
        return ARK_ILL_INPUT;
    }
    m.t += m.h;
    standin_ark::copy(out, m.y);
    *tret = m.t;
    return ARK_SUCCESS;
}
inline void ARKodeFree(void** mem)
{
    if (!mem || !*mem) return;
    auto* m = static_cast<standin_ark::Mem*>(*mem);
    for (N_Vector v : {m->y, m->tmp, m->k1, m->k2}) v->destroy(v);
    delete m;
    standin_ark::live()--;
    *mem = nullptr;
}
