// A stand-in for the part of Kokkos this project uses, because Kokkos is not installed here.
//
// The harness owns the schedule: every kernel of the two parallel execution spaces runs its iterations in an order, and its
// reductions and scans over a partition, drawn from a generator that the harness seeds (standin::seed).  With STANDIN_THREADS the
// iterations really run on several threads, for ThreadSanitizer.  Memory is poisoned when it is handed out, and is counted.
// With STANDIN_SPACES the memory of DefaultExecutionSpace is a device's: only its kernels and deep_copy may touch it, and they may
// not touch what was allocated for the host (AddressSanitizer reports it).
#pragma once

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <numbers>
#include <numeric>
#include <optional>
#include <map>
#include <set>
#include <array>
#include <tuple>
#include <variant>
#include <functional>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#ifdef STANDIN_SPACES
#include <sanitizer/asan_interface.h>
#endif

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_RELOCATABLE_FUNCTION
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_VERSION 40300
#define KOKKOS_VERSION_MAJOR 4
#define KOKKOS_VERSION_MINOR 3
#define KOKKOS_IF_ON_HOST(CODE) STANDIN_STRIP CODE
#define KOKKOS_IF_ON_DEVICE(CODE)
#define STANDIN_STRIP(...) __VA_ARGS__
#define KOKKOS_ASSERT(...) ((__VA_ARGS__) ? (void)0 : Kokkos::abort("KOKKOS_ASSERT"))
#define KOKKOS_EXPECTS(...) KOKKOS_ASSERT(__VA_ARGS__)
#define KOKKOS_ENSURES(...) KOKKOS_ASSERT(__VA_ARGS__)

namespace Kokkos
{

[[noreturn]] inline void abort(const char* m)
{
    std::fprintf(stderr, "%s\n", m);
    std::abort();
}

namespace standin
{

struct State
{
    uint64_t rng = 0; // 0: ascending order, one chunk
    long live = 0;    // allocations not yet freed
    bool poison = true;
    unsigned char poisonByte = 0xff; // NaN, -1
    std::mutex mem;
    std::mutex atomics;
    struct Block
    {
        size_t size;
        bool device;
    };
    std::unordered_map<void*, Block> sizes;
    unsigned long kernels = 0;
};

inline State& state()
{
    static State s;
    return s;
}

// called by the harness at the start of a case; 0 means the plain order
inline void seed(uint64_t s) { state().rng = s; }

inline uint64_t next()
{
    auto& r = state().rng;
    if (r == 0) return 0;
    r += 0x9E3779B97F4A7C15ull;
    if (r == 0) r = 1;
    uint64_t z = r;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline size_t below(size_t n) { return n <= 1 || state().rng == 0 ? 0 : size_t(next() % n); }

// the order in which [b, e) is visited
inline std::vector<size_t> order(size_t b, size_t e)
{
    std::vector<size_t> o(e > b ? e - b : 0);
    std::iota(o.begin(), o.end(), b);
    if (state().rng == 0 || o.size() < 2) return o;
    switch (below(4))
    {
    case 0:
        break; // ascending
    case 1:
        std::reverse(o.begin(), o.end());
        break;
    case 2: // a few interleaved "threads"
    {
        size_t t = 2 + below(6);
        std::vector<size_t> r;
        for (size_t k = 0; k < t; k++)
            for (size_t i = k; i < o.size(); i += t) r.push_back(o[i]);
        o = r;
        break;
    }
    default:
        for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[below(i)]);
    }
    return o;
}

// a partition of [b, e) into consecutive chunks
inline std::vector<std::pair<size_t, size_t>> chunks(size_t b, size_t e)
{
    std::vector<std::pair<size_t, size_t>> r;
    if (e <= b) return r;
    size_t n = e - b, k = state().rng == 0 ? 1 : 1 + below(std::min<size_t>(n, 5));
    std::vector<size_t> cuts {b, e};
    for (size_t i = 1; i < k; i++) cuts.push_back(b + below(n + 1));
    std::sort(cuts.begin(), cuts.end());
    for (size_t i = 0; i + 1 < cuts.size(); i++)
        if (cuts[i] < cuts[i + 1]) r.push_back({cuts[i], cuts[i + 1]});
    return r;
}

// which memory may be touched: the host's, the device's, or (copies, and the harness itself) both
enum class Where
{
    host,
    device,
    both
};
#ifdef STANDIN_SPACES
inline void admit(Where w, void* p, size_t n, bool device)
{
    if (w == Where::both || (w == Where::device) == device) __asan_unpoison_memory_region(p, n);
    else __asan_poison_memory_region(p, n);
}
#endif
inline Where& where()
{
    static Where w = Where::host;
    return w;
}
inline void go(Where w)
{
    if (where() == w) return;
    where() = w;
#ifdef STANDIN_SPACES
    for (auto& [p, b] : state().sizes) admit(w, p, b.size, b.device);
#endif
}
struct At
{
    Where before = where();
    explicit At(Where w) { go(w); }
    ~At() { go(before); }
    At(const At&) = delete;
    At& operator=(const At&) = delete;
};

inline void* allocate(size_t n, bool device)
{
    auto& s = state();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (s.poison) std::memset(p, s.poisonByte, n);
    std::lock_guard<std::mutex> l(s.mem);
    s.live++;
    s.sizes[p] = {n, device};
#ifdef STANDIN_SPACES
    admit(where(), p, n, device);
#endif
    return p;
}

inline void release(void* p)
{
    if (!p) return;
    auto& s = state();
    {
        std::lock_guard<std::mutex> l(s.mem);
        auto it = s.sizes.find(p);
        if (it == s.sizes.end())
        {
            std::fprintf(stderr, "stand-in: kokkos_free of memory that was not allocated\n");
            std::abort();
        }
#ifdef STANDIN_SPACES
        __asan_unpoison_memory_region(p, it->second.size);
#endif
        s.sizes.erase(it);
        s.live--;
    }
    std::free(p);
}

// a kernel is copied to the device byte by byte: nothing it holds may own memory of the host
template<Where W, typename F>
void portable()
{
#ifdef STANDIN_SPACES
    if constexpr (W == Where::device && !(std::is_trivially_copy_constructible_v<F> && std::is_trivially_destructible_v<F>))
    {
        std::fprintf(stderr, "stand-in: a kernel for the device holds objects of the host: %s\n", __PRETTY_FUNCTION__);
        std::abort();
    }
#endif
}

// memory that is given away as a space's must be that space's
inline void belongs(const void* p, bool device, const char* what)
{
#ifdef STANDIN_SPACES
    bool found = false, isDevice = false;
    for (auto& [q, b] : state().sizes)
        if (p >= q && p < static_cast<char*>(q) + std::max<size_t>(b.size, 1))
        {
            found = true;
            isDevice = b.device;
        }
    if (device ? !(found && isDevice) : (found && isDevice))
    {
        std::fprintf(stderr, "stand-in: %s of %s memory as if it was the %s's\n", what, isDevice ? "the device's" : "the host's", device ? "device" : "host");
        std::abort();
    }
#endif
}

#ifdef STANDIN_THREADS
template<typename F>
void parallel(F f, size_t n)
{
    constexpr size_t T = 3;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < T; t++) ts.emplace_back([&, t] { for (size_t i = t; i < n; i += T) f(i); });
    for (auto& t : ts) t.join();
}
#endif

} // namespace standin

// ---- execution and memory spaces
struct HostSpace
{
};

#define STANDIN_SPACE(NAME)                                                                        \
    struct NAME                                                                                    \
    {                                                                                              \
        using execution_space = NAME;                                                              \
        using memory_space = HostSpace;                                                            \
        static const char* name() { return #NAME; }                                                \
        void fence(const std::string& = {}) const {}                                               \
        static int concurrency() { return 1; }                                                     \
        friend bool operator==(const NAME&, const NAME&) { return true; }                          \
        friend bool operator!=(const NAME&, const NAME&) { return false; }                         \
    };
STANDIN_SPACE(Serial)
STANDIN_SPACE(DefaultHostExecutionSpace)
STANDIN_SPACE(DefaultExecutionSpace)
namespace standin
{
template<typename P>
inline constexpr bool isHost = std::is_same_v<P, HostSpace> || std::is_same_v<P, Serial> || std::is_same_v<P, DefaultHostExecutionSpace>;
// the place of a policy, view or allocation with these parameters: the device unless one of them says host
template<typename... P>
inline constexpr bool onDevice = !(isHost<std::remove_cvref_t<P>> || ...);
template<typename... P>
inline constexpr Where placeOf = onDevice<P...> ? Where::device : Where::host;
}

enum MemoryTraitsFlags
{
    Unmanaged = 1,
    RandomAccess = 2,
    Atomic = 4,
    Restrict = 8,
    Aligned = 16
};
template<unsigned N = 0>
struct MemoryTraits
{
};
using MemoryManaged = MemoryTraits<0>;
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryRandomAccess = MemoryTraits<unsigned(Unmanaged) | RandomAccess>;
struct LayoutLeft
{
};
struct LayoutRight
{
};
struct LayoutStride
{
};
struct WithoutInitializingTag
{
};
inline constexpr WithoutInitializingTag WithoutInitializing {};
struct ALLTag
{
    constexpr ALLTag operator()() const { return {}; }
};
inline constexpr ALLTag ALL {};
struct ViewAllocation
{
    bool initialise = true;
};
template<typename... A>
ViewAllocation view_alloc(const A&...)
{
    return {!(std::is_same_v<A, WithoutInitializingTag> || ...)};
}

// dynamic extents only; contiguous (the last index runs fastest) unless it is a subview of rank one
template<typename D, typename... P>
class View
{
    template<typename T>
    struct Strip
    {
        using type = T;
        static constexpr size_t rank = 0;
    };
    template<typename T>
    struct Strip<T*>
    {
        using type = typename Strip<T>::type;
        static constexpr size_t rank = Strip<T>::rank + 1;
    };
    template<typename, typename...>
    friend class View;

public:

    using data_type = D;
    using value_type = typename Strip<D>::type;
    using element_type = value_type;
    using non_const_value_type = std::remove_const_t<value_type>;
    using size_type = size_t;
    using pointer_type = value_type*;
    using reference_type = value_type&;
    using execution_space = DefaultExecutionSpace;
    using memory_space = HostSpace;
    using device_type = DefaultExecutionSpace;
    using array_layout = LayoutRight;
    using HostMirror = View<D>;
    using host_mirror_type = View<D>;
    static constexpr size_t rank = Strip<D>::rank;
    static constexpr size_t Rank = rank;
    static constexpr size_t rank_dynamic = rank;
    static constexpr bool onDevice = standin::onDevice<P...>;

    View() = default;
    template<typename... N>
        requires(sizeof...(N) <= 3 && (std::is_integral_v<N> && ...))
    View(value_type* p, N... n) : p_(p), n_ {size_t(n)...}
    {}
    template<typename... N>
        requires(sizeof...(N) <= 3 && (std::is_integral_v<N> && ...))
    explicit View(const std::string& label, N... n) : n_ {size_t(n)...}, label_(label)
    {
        own(true);
    }
    template<typename... N>
        requires(sizeof...(N) <= 3 && (std::is_integral_v<N> && ...))
    explicit View(const ViewAllocation& a, N... n) : n_ {size_t(n)...}
    {
        own(a.initialise);
    }
    template<typename E, typename... Q>
        requires(std::is_convertible_v<typename View<E, Q...>::value_type (*)[], value_type (*)[]> && View<E, Q...>::rank == rank)
    View(const View<E, Q...>& o)
        : hold_(o.hold_), p_(o.p_), n_ {o.n_[0], o.n_[1], o.n_[2]}, stride_(o.stride_), label_(o.label_)
    {}

    value_type* data() const { return p_; }
    size_t size() const
    {
        size_t s = 1;
        for (size_t k = 0; k < rank; k++) s *= n_[k];
        return s;
    }
    size_t span() const { return size(); }
    bool span_is_contiguous() const { return stride_ == 1; }
    bool is_allocated() const { return p_ != nullptr; }
    long use_count() const { return hold_.use_count(); }
    std::string label() const { return label_; }
    size_t extent(size_t k) const { return k < rank ? n_[k] : 1; }
    int extent_int(size_t k) const { return int(extent(k)); }
    size_t extent_0() const { return extent(0); }
    size_t stride(size_t) const { return stride_; }
    value_type& operator()() const { return *p_; }
    template<typename I>
    value_type& operator()(I i) const
    {
        return p_[size_t(i) * stride_];
    }
    template<typename I, typename J>
    value_type& operator()(I i, J j) const
    {
        return p_[size_t(i) * n_[1] + size_t(j)];
    }
    template<typename I, typename J, typename K>
    value_type& operator()(I i, J j, K k) const
    {
        return p_[(size_t(i) * n_[1] + size_t(j)) * n_[2] + size_t(k)];
    }
    template<typename... I>
    value_type& access(I... i) const
    {
        return (*this)(i...);
    }
    template<typename I>
    value_type& operator[](I i) const
    {
        return p_[size_t(i) * stride_];
    }
    template<typename E, typename... Q>
    bool operator==(const View<E, Q...>& o) const
    {
        return p_ == o.data() && size() == o.size();
    }
    template<typename E, typename... Q, typename Range>
    static View part(const View<E, Q...>& v, const Range& r)
    {
        View s;
        s.hold_ = v.hold_;
        s.stride_ = v.stride_;
        s.p_ = v.p_ + size_t(r.first) * v.stride_;
        s.n_[0] = size_t(r.second) - size_t(r.first);
        return s;
    }

private:

    void own(bool initialise)
    {
        using M = std::remove_const_t<value_type>;
        size_t n = size();
        M* p = static_cast<M*>(standin::allocate(n * sizeof(M), onDevice));
        standin::At all(standin::Where::both);
        if (initialise)
            for (size_t i = 0; i < n; i++) new (p + i) M();
        p_ = p;
        hold_ = std::shared_ptr<M>(
            p,
            [n, initialise](M* q)
            {
                if (initialise)
                {
                    standin::At all(standin::Where::both);
                    std::destroy_n(q, n);
                }
                standin::release(q);
            }
        );
    }
    std::shared_ptr<const void> hold_;
    value_type* p_ = nullptr;
    size_t n_[3] = {0, 0, 0};
    size_t stride_ = 1;
    std::string label_;
};

template<typename D, typename... P, typename E, typename... Q>
void deep_copy(const View<D, P...>& dst, const View<E, Q...>& src)
{
    static_assert(std::is_same_v<typename View<D, P...>::value_type, std::remove_const_t<typename View<E, Q...>::value_type>>);
    if (dst.size() != src.size()) throw std::runtime_error("stand-in: deep_copy extents of views don't match");
    if (dst.size() == 0) return;
    standin::belongs(dst.data(), View<D, P...>::onDevice, "deep_copy");
    standin::belongs(src.data(), View<E, Q...>::onDevice, "deep_copy");
    standin::At all(standin::Where::both);
    if (dst.span_is_contiguous() && src.span_is_contiguous())
    {
        if (dst.size()) std::memmove(static_cast<void*>(dst.data()), src.data(), dst.size() * sizeof(*dst.data()));
    }
    else
        for (size_t i = 0; i < dst.size(); i++) dst[i] = src[i];
}
template<typename D, typename... P>
void deep_copy(const View<D, P...>& dst, const typename View<D, P...>::non_const_value_type& v)
{
    if (dst.size()) standin::belongs(dst.data(), View<D, P...>::onDevice, "deep_copy");
    standin::At all(standin::Where::both);
    if (dst.span_is_contiguous())
        for (size_t i = 0; i < dst.size(); i++) dst.data()[i] = v;
    else
        for (size_t i = 0; i < dst.size(); i++) dst[i] = v;
}
template<typename Space, typename D, typename... P, typename E, typename... Q>
    requires requires { typename Space::execution_space; }
void deep_copy(const Space&, const View<D, P...>& dst, const View<E, Q...>& src)
{
    deep_copy(dst, src);
}
template<typename Space, typename D, typename... P>
    requires requires { typename Space::execution_space; }
void deep_copy(const Space&, const View<D, P...>& dst, const typename View<D, P...>::non_const_value_type& v)
{
    deep_copy(dst, v);
}
template<typename T, typename D, typename... P>
    requires(View<D, P...>::rank == 0 && std::is_arithmetic_v<T>)
void deep_copy(T& dst, const View<D, P...>& src)
{
    standin::At all(standin::Where::both);
    dst = src();
}
// a mirror view is the view itself where that is the host's (without STANDIN_SPACES all memory is); a mirror is another one
template<typename D, typename... P>
auto create_mirror(const View<D, P...>& v)
{
    return View<std::remove_const_t<typename View<D, P...>::value_type>*, HostSpace>("mirror", v.size());
}
template<typename D, typename... P>
auto create_mirror_view(const View<D, P...>& v)
{
#ifdef STANDIN_SPACES
    using M = View<std::remove_const_t<typename View<D, P...>::value_type>*, HostSpace>;
    if constexpr (View<D, P...>::onDevice) return M("mirror", v.size());
    else return v;
#else
    return v;
#endif
}
template<typename Space, typename D, typename... P>
auto create_mirror_view(const Space&, const View<D, P...>& v)
{
#ifdef STANDIN_SPACES
    using M = View<std::remove_const_t<typename View<D, P...>::value_type>*, Space>;
    if constexpr (View<D, P...>::onDevice != M::onDevice) return M("mirror", v.size());
    else return v;
#else
    return v;
#endif
}
template<typename Space, typename D, typename... P>
auto create_mirror_view_and_copy(const Space&, const View<D, P...>& v, const std::string& = {})
{
    using M = std::remove_const_t<typename View<D, P...>::value_type>;
    View<M*, Space> m("mirror", v.size());
    deep_copy(m, v);
    return m;
}
template<typename D, typename... P, typename Range>
    requires requires(Range r) { r.first; }
View<typename View<D, P...>::value_type*, P...> subview(const View<D, P...>& v, const Range& r)
{
    return View<typename View<D, P...>::value_type*, P...>::part(v, r);
}
template<typename D, typename... P>
View<D, P...> subview(const View<D, P...>& v, ALLTag)
{
    return v;
}
template<typename D, typename... P, typename... N>
void resize(View<D, P...>& v, N... n)
{
    View<D, P...> w("resized", n...);
    {
        standin::At all(standin::Where::both);
        for (size_t i = 0; i < std::min(v.size(), w.size()); i++) w.data()[i] = v.data()[i];
    }
    v = w;
}
template<typename D, typename... P, typename... N>
void realloc(View<D, P...>& v, N... n)
{
    v = View<D, P...>("reallocated", n...);
}

template<typename Space = DefaultExecutionSpace>
void* kokkos_malloc(const std::string&, size_t n)
{
    return n ? standin::allocate(n, standin::onDevice<Space>) : nullptr;
}
template<typename Space = DefaultExecutionSpace>
void* kokkos_malloc(size_t n)
{
    return n ? standin::allocate(n, standin::onDevice<Space>) : nullptr;
}
template<typename Space = DefaultExecutionSpace>
void kokkos_free(void* p)
{
    if (p) standin::belongs(p, standin::onDevice<Space>, "kokkos_free");
    standin::release(p);
}
template<typename Space = DefaultExecutionSpace>
void* kokkos_realloc(void* p, size_t n)
{
    size_t old;
    bool device;
    if (p) standin::belongs(p, standin::onDevice<Space>, "kokkos_realloc");
    {
        auto& s = standin::state();
        std::lock_guard<std::mutex> l(s.mem);
        auto it = s.sizes.find(p);
        if (it == s.sizes.end())
        {
            std::fprintf(stderr, "stand-in: kokkos_realloc of memory that was not allocated\n");
            std::abort();
        }
        old = it->second.size;
        device = it->second.device;
    }
    void* r = standin::allocate(n, device);
    {
        standin::At all(standin::Where::both);
        std::memcpy(r, p, std::min(old, n));
    }
    standin::release(p);
    return r;
}

// ---- policies, kernels
template<typename T>
struct IndexType
{
};
template<typename T>
struct Schedule
{
};
struct Static
{
};
struct Dynamic
{
};
template<typename... P>
class RangePolicy
{
public:

    using index_type = size_t;
    using member_type = size_t;
    template<typename A, typename B>
        requires(std::is_integral_v<A> && std::is_integral_v<B>)
    RangePolicy(A b, B e) : b_(size_t(b)), e_(size_t(e))
    {}
    template<typename Space, typename A, typename B>
        requires(!std::is_integral_v<Space> && std::is_integral_v<A> && std::is_integral_v<B>)
    RangePolicy(const Space&, A b, B e) : b_(size_t(b)), e_(size_t(e))
    {}
    size_t begin() const { return b_; }
    size_t end() const { return e_; }
    static constexpr standin::Where place = standin::placeOf<P...>;

private:

    size_t b_, e_;
};
template<size_t N>
struct Rank
{
};
template<typename... P>
class MDRangePolicy
{
public:

    static constexpr standin::Where place = standin::placeOf<P...>;
    template<typename A, typename B, size_t N>
    MDRangePolicy(const A (&b)[N], const B (&e)[N])
    {
        for (size_t k = 0; k < N; k++) set(k, size_t(b[k]), size_t(e[k]));
    }
    void set(size_t k, size_t b, size_t e)
    {
        n_ = k + 1;
        b_[k] = b;
        e_[k] = e;
    }
    size_t n_ = 0, b_[3] = {0, 0, 0}, e_[3] = {1, 1, 1};
    size_t total() const
    {
        size_t t = 1;
        for (size_t k = 0; k < n_; k++) t *= e_[k] > b_[k] ? e_[k] - b_[k] : 0;
        return t;
    }
    template<typename F, typename... R>
    void call(const F& f, size_t flat, R&... r) const
    {
        size_t i[3] = {b_[0], b_[1], b_[2]};
        for (size_t k = n_; k-- > 0;)
        {
            i[k] = b_[k] + flat % (e_[k] - b_[k]);
            flat /= e_[k] - b_[k];
        }
        if constexpr (std::is_invocable_v<const F&, size_t, size_t, size_t, R&...>) f(i[0], i[1], i[2], r...);
        else f(i[0], i[1], r...);
    }
};

namespace standin
{
template<Where W = Where::device, typename F>
void loop(size_t b, size_t e, const F& f)
{
    state().kernels++;
    auto o = order(b, e);
    portable<W, F>();
    At place(W);
#ifdef STANDIN_THREADS
    parallel([&](size_t i) { f(o[i]); }, o.size());
#else
    for (size_t i : o) f(i);
#endif
}
}

template<typename... P, typename F>
void parallel_for(const std::string&, const RangePolicy<P...>& r, const F& f)
{
    standin::loop<RangePolicy<P...>::place>(r.begin(), r.end(), f);
}
template<typename... P, typename F>
void parallel_for(const RangePolicy<P...>& r, const F& f)
{
    standin::loop<RangePolicy<P...>::place>(r.begin(), r.end(), f);
}
template<typename N, typename F>
    requires(std::is_integral_v<N>)
void parallel_for(const std::string&, N n, const F& f)
{
    standin::loop(0, size_t(n), f);
}
template<typename N, typename F>
    requires(std::is_integral_v<N>)
void parallel_for(N n, const F& f)
{
    standin::loop(0, size_t(n), f);
}
template<typename... P, typename F>
void parallel_for(const std::string&, const MDRangePolicy<P...>& r, const F& f)
{
    standin::loop<MDRangePolicy<P...>::place>(0, r.total(), [&](size_t i) { r.call(f, i); });
}
template<typename... P, typename F>
void parallel_for(const MDRangePolicy<P...>& r, const F& f)
{
    parallel_for(std::string(), r, f);
}

// ---- reducers
struct ReducerTag
{
};
template<typename T>
struct is_reducer : std::is_base_of<ReducerTag, T>
{
};

#define STANDIN_REDUCER(NAME, INIT, JOIN)                                                          \
    template<typename S, typename Space = HostSpace>                                               \
    class NAME : public ReducerTag                                                                 \
    {                                                                                              \
    public:                                                                                        \
                                                                                                   \
        using reducer = NAME;                                                                      \
        using value_type = std::remove_cv_t<S>;                                                    \
        NAME(value_type& v) : v_(&v) {}                                                            \
        void init(value_type& v) const { v = INIT; }                                               \
        void join(value_type& d, const value_type& s) const { JOIN; }                              \
        value_type& reference() const { return *v_; }                                              \
                                                                                                   \
    private:                                                                                       \
                                                                                                   \
        value_type* v_;                                                                            \
    };
template<typename T>
struct reduction_identity
{
    static T sum() { return T {}; }
    static T prod() { return T(1); }
    static T max() { return std::numeric_limits<T>::lowest(); }
    static T min() { return std::numeric_limits<T>::max(); }
    static T land() { return T(1); }
    static T lor() { return T(0); }
    static T band() { return T(~T(0)); }
    static T bor() { return T(0); }
};
template<typename T>
struct MinMaxScalar
{
    T min_val, max_val;
};
template<typename T, typename I>
struct ValLocScalar
{
    T val;
    I loc;
};
STANDIN_REDUCER(Sum, value_type {}, d += s)
STANDIN_REDUCER(Prod, value_type {1}, d *= s)
STANDIN_REDUCER(Max, reduction_identity<value_type>::max(), if (d < s) d = s)
STANDIN_REDUCER(Min, reduction_identity<value_type>::min(), if (s < d) d = s)
STANDIN_REDUCER(LAnd, value_type {1}, d = d && s)
STANDIN_REDUCER(LOr, value_type {0}, d = d || s)
STANDIN_REDUCER(BAnd, value_type(~value_type {0}), d = d & s)
STANDIN_REDUCER(BOr, value_type {0}, d = d | s)

#define STANDIN_REDUCER_OF(NAME, PARAMS, VALUE, INIT, JOIN)                                        \
    template<STANDIN_UNPACK PARAMS, typename Space = HostSpace>                                    \
    class NAME : public ReducerTag                                                                 \
    {                                                                                              \
    public:                                                                                        \
                                                                                                   \
        using reducer = NAME;                                                                      \
        using value_type = STANDIN_UNPACK VALUE;                                                   \
        NAME(value_type& v) : v_(&v) {}                                                            \
        void init(value_type& v) const { INIT; }                                                   \
        void join(value_type& d, const value_type& s) const { JOIN; }                              \
        value_type& reference() const { return *v_; }                                              \
                                                                                                   \
    private:                                                                                       \
                                                                                                   \
        value_type* v_;                                                                            \
    };
#define STANDIN_UNPACK(...) __VA_ARGS__
STANDIN_REDUCER_OF(MinMax, (typename T), (MinMaxScalar<T>),
    (v.min_val = reduction_identity<T>::min(), v.max_val = reduction_identity<T>::max()),
    (d.min_val = s.min_val < d.min_val ? s.min_val : d.min_val, d.max_val = d.max_val < s.max_val ? s.max_val : d.max_val))
STANDIN_REDUCER_OF(MaxLoc, (typename T, typename I), (ValLocScalar<T, I>), (v.val = reduction_identity<T>::max(), v.loc = I {}), if (d.val < s.val) d = s)
STANDIN_REDUCER_OF(MinLoc, (typename T, typename I), (ValLocScalar<T, I>), (v.val = reduction_identity<T>::min(), v.loc = I {}), if (s.val < d.val) d = s)

namespace standin
{
template<Where W, typename Range, typename F, typename T, typename Join>
void reduce(const Range& r, const F& f, T& result, const T& identity, Join join)
{
    state().kernels++;
    auto cs = chunks(r.begin(), r.end());
    std::vector<T> part(cs.size(), identity);
    portable<W, F>();
    {
        At place(W);
#ifdef STANDIN_THREADS
    parallel(
        [&](size_t c)
        {
            for (size_t i = cs[c].first; i < cs[c].second; i++) f(i, part[c]);
        },
        cs.size()
    );
#else
    for (size_t c = 0; c < cs.size(); c++)
        for (size_t i : order(cs[c].first, cs[c].second)) f(i, part[c]);
#endif
    }
    At all(Where::both);
    T total = identity;
    for (size_t c : order(0, cs.size())) join(total, part[c]);
    result = total;
}
}

namespace standin
{
template<typename T>
struct Target // a plain value: summed up
{
    using value_type = T;
    T& v;
    static T identity() { return T {}; }
    void join(T& d, const T& s) const { d += s; }
    T& reference() const { return v; }
};
template<typename T>
auto target(T& v)
{
    if constexpr (is_reducer<std::remove_const_t<T>>::value) return std::remove_const_t<T>(v);
    else if constexpr (requires { v.data(); v.is_allocated(); }) return Target<typename std::remove_const_t<T>::value_type> {*v.data()};
    else return Target<T> {v};
}
template<typename R>
auto identityOf(const R& r)
{
    if constexpr (requires(typename R::value_type x) { r.init(x); })
    {
        typename R::value_type x;
        r.init(x);
        return x;
    }
    else return R::identity();
}
struct Span
{
    static constexpr Where place = Where::device;
    size_t b, e;
    size_t begin() const { return b; }
    size_t end() const { return e; }
};
template<Where W>
struct SpanOn : Span
{
    static constexpr Where place = W;
};
template<typename Range, typename F, typename... T>
void reduceAll(const Range& r, const F& f, T&&... values)
{
    if constexpr (sizeof...(T) == 1)
    {
        auto t = target(values...);
        reduce<Range::place>(r, f, t.reference(), identityOf(t), [&](auto& d, const auto& s) { t.join(d, s); });
    }
    else
    {
        auto ts = std::make_tuple(target(values)...);
        auto id = std::apply([](auto&... t) { return std::make_tuple(identityOf(t)...); }, ts);
        auto all = id;
        auto joinAll = [&]<size_t... K>(auto& d, const auto& s, std::index_sequence<K...>) { (std::get<K>(ts).join(std::get<K>(d), std::get<K>(s)), ...); };
        auto seq = std::index_sequence_for<T...> {};
        reduce<Range::place>(
            r, [&](size_t i, auto& part) { std::apply([&](auto&... x) { f(i, x...); }, part); }, all, id, [&](auto& d, const auto& s) { joinAll(d, s, seq); }
        );
        [&]<size_t... K>(std::index_sequence<K...>) { ((std::get<K>(ts).reference() = std::get<K>(all)), ...); }(seq);
    }
}
}

template<typename... P, typename F, typename... T>
    requires(sizeof...(T) > 0)
void parallel_reduce(const std::string&, const RangePolicy<P...>& r, const F& f, T&&... values)
{
    standin::reduceAll(r, f, values...);
}
template<typename... P, typename F, typename... T>
    requires(sizeof...(T) > 0)
void parallel_reduce(const RangePolicy<P...>& r, const F& f, T&&... values)
{
    standin::reduceAll(r, f, values...);
}
template<typename N, typename F, typename... T>
    requires(sizeof...(T) > 0 && std::is_integral_v<N>)
void parallel_reduce(const std::string&, N n, const F& f, T&&... values)
{
    standin::reduceAll(standin::Span {0, size_t(n)}, f, values...);
}
template<typename N, typename F, typename... T>
    requires(sizeof...(T) > 0 && std::is_integral_v<N>)
void parallel_reduce(N n, const F& f, T&&... values)
{
    standin::reduceAll(standin::Span {0, size_t(n)}, f, values...);
}
template<typename... P, typename F, typename T>
void parallel_reduce(const std::string&, const MDRangePolicy<P...>& r, const F& f, T&& value)
{
    standin::reduceAll(standin::SpanOn<MDRangePolicy<P...>::place> {{0, r.total()}}, [&](size_t i, auto& v) { r.call(f, i, v); }, value);
}
template<typename... P, typename F, typename T>
void parallel_reduce(const MDRangePolicy<P...>& r, const F& f, T&& value)
{
    parallel_reduce(std::string(), r, f, value);
}

// ---- scans: totals of the chunks first (final == false), then the final pass
namespace standin
{
template<typename T>
struct ScanArgs;
template<typename C, typename I, typename V>
struct ScanArgs<void (C::*)(I, V&, bool) const>
{
    using type = V;
};
template<typename C, typename I, typename V>
struct ScanArgs<void (C::*)(I, V&, const bool) const volatile>
{
    using type = V;
};

template<typename V, Where W = Where::device, typename F>
V scan(size_t b, size_t e, const F& f)
{
    state().kernels++;
    auto cs = chunks(b, e);
    portable<W, F>();
    At place(W);
    std::vector<V> tot(cs.size(), V {});
    if (cs.size() > 1)
        for (size_t c : order(0, cs.size()))
            for (size_t i = cs[c].first; i < cs[c].second; i++) f(i, tot[c], false);
    std::vector<V> start(cs.size(), V {});
    V sum {};
    for (size_t c = 0; c < cs.size(); c++)
    {
        start[c] = sum;
        sum += tot[c];
    }
    V last {};
    for (size_t c : order(0, cs.size()))
    {
        V upd = start[c];
        for (size_t i = cs[c].first; i < cs[c].second; i++) f(i, upd, true);
        if (c + 1 == cs.size()) last = upd;
    }
    return last;
}
}

namespace standin
{
template<typename F>
using ScanValue = typename ScanArgs<decltype(&F::operator())>::type;
}
template<typename... P, typename F>
void parallel_scan(const std::string&, const RangePolicy<P...>& r, const F& f)
{
    standin::scan<standin::ScanValue<F>, RangePolicy<P...>::place>(r.begin(), r.end(), f);
}
template<typename... P, typename F>
void parallel_scan(const RangePolicy<P...>& r, const F& f)
{
    standin::scan<standin::ScanValue<F>, RangePolicy<P...>::place>(r.begin(), r.end(), f);
}
template<typename N, typename F>
    requires(std::is_integral_v<N>)
void parallel_scan(N n, const F& f)
{
    standin::scan<standin::ScanValue<F>>(0, size_t(n), f);
}
template<typename N, typename F>
    requires(std::is_integral_v<N>)
void parallel_scan(const std::string&, N n, const F& f)
{
    standin::scan<standin::ScanValue<F>>(0, size_t(n), f);
}
template<typename... P, typename F, typename R>
void parallel_scan(const std::string&, const RangePolicy<P...>& r, const F& f, R& result)
{
    result = standin::scan<standin::ScanValue<F>, RangePolicy<P...>::place>(r.begin(), r.end(), f);
}
template<typename... P, typename F, typename R>
void parallel_scan(const RangePolicy<P...>& r, const F& f, R& result)
{
    result = standin::scan<standin::ScanValue<F>, RangePolicy<P...>::place>(r.begin(), r.end(), f);
}

// ---- atomics
namespace standin
{
template<typename T, typename Op>
T rmw(T* p, Op op)
{
#ifdef STANDIN_THREADS
    if constexpr (std::is_trivially_copyable_v<T> && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
    {
        std::atomic_ref<T> a(*p);
        T old = a.load();
        while (!a.compare_exchange_weak(old, op(old))) {}
        return old;
    }
    else
    {
        std::lock_guard<std::mutex> l(state().atomics);
        T old = *p;
        *p = op(old);
        return old;
    }
#else
    T old = *p;
    *p = op(old);
    return old;
#endif
}
}
template<typename T>
void atomic_add(T* p, const std::type_identity_t<T>& v)
{
    standin::rmw(p, [&](T o) { return T(o + v); });
}
template<typename T>
void atomic_sub(T* p, const std::type_identity_t<T>& v)
{
    standin::rmw(p, [&](T o) { return T(o - v); });
}
template<typename T>
void atomic_increment(T* p)
{
    standin::rmw(p, [&](T o) { return T(o + 1); });
}
template<typename T>
void atomic_decrement(T* p)
{
    standin::rmw(p, [&](T o) { return T(o - 1); });
}
template<typename T>
void atomic_assign(T* p, const std::type_identity_t<T>& v)
{
    standin::rmw(p, [&](T) { return v; });
}
template<typename T>
void atomic_store(T* p, const std::type_identity_t<T>& v)
{
    standin::rmw(p, [&](T) { return v; });
}
template<typename T>
T atomic_load(T* p)
{
    return standin::rmw(p, [&](T o) { return o; });
}
template<typename T>
T atomic_fetch_add(T* p, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T o) { return T(o + v); });
}
template<typename T>
T atomic_fetch_sub(T* p, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T o) { return T(o - v); });
}
template<typename T>
T atomic_exchange(T* p, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T) { return v; });
}
template<typename T>
T atomic_fetch_max(T* p, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T o) { return o < v ? v : o; });
}
template<typename T>
T atomic_fetch_min(T* p, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T o) { return v < o ? v : o; });
}
template<typename T>
void atomic_max(T* p, const std::type_identity_t<T>& v)
{
    atomic_fetch_max(p, v);
}
template<typename T>
void atomic_min(T* p, const std::type_identity_t<T>& v)
{
    atomic_fetch_min(p, v);
}
template<typename T>
T atomic_add_fetch(T* p, const std::type_identity_t<T>& v)
{
    return T(atomic_fetch_add(p, v) + v);
}
template<typename T>
T atomic_sub_fetch(T* p, const std::type_identity_t<T>& v)
{
    return T(atomic_fetch_sub(p, v) - v);
}
template<typename T>
T atomic_compare_exchange(T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T o) { return o == c ? v : o; });
}

template<typename T>
void atomic_inc(T* p)
{
    atomic_increment(p);
}
template<typename T>
void atomic_dec(T* p)
{
    atomic_decrement(p);
}
template<typename T>
T atomic_fetch_inc(T* p)
{
    return atomic_fetch_add(p, T(1));
}
template<typename T>
T atomic_fetch_dec(T* p)
{
    return atomic_fetch_sub(p, T(1));
}
template<typename T>
T atomic_inc_fetch(T* p)
{
    return atomic_add_fetch(p, T(1));
}
template<typename T>
T atomic_max_fetch(T* p, const std::type_identity_t<T>& v)
{
    T o = atomic_fetch_max(p, v);
    return o < v ? v : o;
}
template<typename T>
T atomic_min_fetch(T* p, const std::type_identity_t<T>& v)
{
    T o = atomic_fetch_min(p, v);
    return v < o ? v : o;
}
template<typename T>
T atomic_fetch_mul(T* p, const std::type_identity_t<T>& v)
{
    return standin::rmw(p, [&](T o) { return T(o * v); });
}
template<typename T>
void atomic_mul(T* p, const std::type_identity_t<T>& v)
{
    atomic_fetch_mul(p, v);
}
template<typename T>
void atomic_or(T* p, const std::type_identity_t<T>& v)
{
    standin::rmw(p, [&](T o) { return T(o | v); });
}
template<typename T>
void atomic_and(T* p, const std::type_identity_t<T>& v)
{
    standin::rmw(p, [&](T o) { return T(o & v); });
}
template<typename T>
bool atomic_compare_exchange_strong(T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v)
{
    return atomic_compare_exchange(p, c, v) == c;
}
inline void memory_fence() { std::atomic_thread_fence(std::memory_order_seq_cst); }

// ---- the rest
template<typename A, typename B>
struct pair
{
    A first {};
    B second {};
    bool operator==(const pair&) const = default;
    bool operator<(const pair& o) const { return first < o.first || (!(o.first < first) && second < o.second); }
};
template<typename A, typename B>
pair(A, B) -> pair<A, B>;
template<typename T, size_t N>
struct Array : std::array<T, N>
{
};
template<typename T, typename... U>
Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
template<typename A, typename B>
pair<A, B> make_pair(A a, B b)
{
    return {a, b};
}

using std::abs;
using std::acos;
using std::asin;
using std::atan;
using std::atan2;
using std::cbrt;
using std::ceil;
using std::cos;
using std::exp;
using std::fabs;
using std::floor;
using std::fmax;
using std::fmin;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::log10;
using std::pow;
using std::round;
using std::sin;
using std::sqrt;
using std::tan;
using std::tanh;
using std::max;
using std::min;
using std::clamp;
using std::swap;
using std::acosh;
using std::asinh;
using std::atanh;
using std::copysign;
using std::cosh;
using std::erf;
using std::erfc;
using std::exp2;
using std::expm1;
using std::fdim;
using std::fma;
using std::fmod;
using std::lgamma;
using std::log1p;
using std::log2;
using std::logb;
using std::minmax;
using std::nearbyint;
using std::nextafter;
using std::remainder;
using std::rint;
using std::signbit;
using std::sinh;
using std::tgamma;
using std::trunc;
using std::printf;
inline double rsqrt(double x) { return 1.0 / std::sqrt(x); }
inline float rsqrt(float x) { return 1.0f / std::sqrt(x); }
template<typename... A>
void print(const A&... a)
{
    (std::cout << ... << a);
}

class Timer
{
public:

    double seconds() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - at_).count(); }
    void reset() { at_ = std::chrono::steady_clock::now(); }

private:

    std::chrono::steady_clock::time_point at_ = std::chrono::steady_clock::now();
};
namespace numbers = std::numbers;


inline void fence(const std::string& = {}) {}
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
inline bool is_initialized() { return true; }
inline bool is_finalized() { return false; }
inline int num_threads() { return 1; }
inline int num_devices() { return 0; }
inline int device_id() { return 0; }
struct ScopeGuard
{
    template<typename... A>
    ScopeGuard(A&&...)
    {}
};

namespace Experimental
{
template<typename T>
struct finite_max
{
    static constexpr T value = std::numeric_limits<T>::max();
};
template<typename T>
inline constexpr T finite_max_v = finite_max<T>::value;
template<typename T>
inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template<typename T>
inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template<typename T>
inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template<typename T>
inline constexpr T norm_min_v = std::numeric_limits<T>::min();
template<typename T>
inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();

// algorithms over views: [execution space, view, ...]
template<typename D, typename... P>
auto begin(const View<D, P...>& v)
{
    return v.data();
}
template<typename D, typename... P>
auto end(const View<D, P...>& v)
{
    return v.data() + v.size();
}
template<typename D, typename... P>
auto cbegin(const View<D, P...>& v)
{
    return static_cast<const typename View<D, P...>::value_type*>(v.data());
}
template<typename D, typename... P>
auto cend(const View<D, P...>& v)
{
    return cbegin(v) + v.size();
}
template<typename Space, typename D, typename... P, typename T>
void fill(const Space&, const View<D, P...>& v, const T& x)
{
    standin::loop<standin::placeOf<Space>>(0, v.size(), [&](size_t i) { v[i] = x; });
}
template<typename Space, typename D, typename... P, typename E, typename... Q>
void copy(const Space&, const View<D, P...>& a, const View<E, Q...>& b)
{
    standin::loop<standin::placeOf<Space>>(0, a.size(), [&](size_t i) { b[i] = a[i]; });
}
template<typename Space, typename D, typename... P, typename F>
void for_each(const Space&, const View<D, P...>& v, F f)
{
    standin::loop<standin::placeOf<Space>>(0, v.size(), [&](size_t i) { f(v[i]); });
}
template<typename Space, typename D, typename... P, typename E, typename... Q, typename F>
void transform(const Space&, const View<D, P...>& a, const View<E, Q...>& b, F f)
{
    standin::loop<standin::placeOf<Space>>(0, a.size(), [&](size_t i) { b[i] = f(a[i]); });
}
template<typename Space, typename D, typename... P, typename T>
T reduce(const Space&, const View<D, P...>& v, T init)
{
    T t {};
    standin::reduceAll(standin::SpanOn<standin::placeOf<Space>> {{0, v.size()}}, [&](size_t i, T& x) { x += v[i]; }, t);
    return T(init + t);
}
template<typename Space, typename D, typename... P, typename F>
size_t count_if(const Space&, const View<D, P...>& v, F f)
{
    standin::At place(standin::placeOf<Space>);
    return size_t(std::count_if(begin(v), end(v), f));
}
template<typename Space, typename D, typename... P, typename F>
bool any_of(const Space&, const View<D, P...>& v, F f)
{
    standin::At place(standin::placeOf<Space>);
    return std::any_of(begin(v), end(v), f);
}
template<typename Space, typename D, typename... P, typename F>
bool all_of(const Space&, const View<D, P...>& v, F f)
{
    standin::At place(standin::placeOf<Space>);
    return std::all_of(begin(v), end(v), f);
}
template<typename Space, typename D, typename... P, typename F>
bool none_of(const Space&, const View<D, P...>& v, F f)
{
    standin::At place(standin::placeOf<Space>);
    return std::none_of(begin(v), end(v), f);
}
template<typename Space, typename D, typename... P, typename E, typename... Q>
bool equal(const Space&, const View<D, P...>& a, const View<E, Q...>& b)
{
    standin::At place(standin::placeOf<Space>);
    return a.size() == b.size() && std::equal(begin(a), end(a), begin(b));
}
template<typename Space, typename D, typename... P>
auto max_element(const Space&, const View<D, P...>& v)
{
    standin::At place(standin::placeOf<Space>);
    return std::max_element(begin(v), end(v));
}
template<typename Space, typename D, typename... P>
auto min_element(const Space&, const View<D, P...>& v)
{
    standin::At place(standin::placeOf<Space>);
    return std::min_element(begin(v), end(v));
}

}

} // namespace Kokkos
