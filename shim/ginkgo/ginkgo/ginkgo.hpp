// Stand-in for the part of Ginkgo the project uses: executors, arrays (owning and views), Csr and Dense matrices, the configuration tree, and a
// solver factory that records the configuration, the system, the right-hand side and the first guess, and answers through a hook.
// Semantics follow Ginkgo's documentation: copies of arrays and views own their data, moves keep what they are, creating a matrix takes its arrays by
// value and checks their sizes.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace gko
{
using size_type = std::size_t;
using int32 = std::int32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;

class Error : public std::exception
{
public:
    Error(const std::string& file, int line, const std::string& what) : what_(file + ":" + std::to_string(line) + ": " + what) {}
    const char* what() const noexcept override { return what_.c_str(); }

private:
    std::string what_;
};
class DimensionMismatch : public Error
{
    using Error::Error;
};
class ValueMismatch : public Error
{
    using Error::Error;
};
class BadDimension : public Error
{
    using Error::Error;
};
class OverflowError : public Error
{
    using Error::Error;
};
class InvalidStateError : public Error
{
    using Error::Error;
};

// ---- executors
class Executor : public std::enable_shared_from_this<Executor>
{
public:
    virtual ~Executor() = default;
    virtual std::shared_ptr<Executor> get_master() noexcept { return shared_from_this(); }
    virtual std::shared_ptr<const Executor> get_master() const noexcept { return shared_from_this(); }
    virtual void synchronize() const {}
    virtual std::string get_description() const = 0;

protected:
    Executor() = default;
};
class OmpExecutor : public Executor
{
public:
    static std::shared_ptr<OmpExecutor> create() { return std::shared_ptr<OmpExecutor>(new OmpExecutor()); }
    std::string get_description() const override { return "OmpExecutor"; }

protected:
    OmpExecutor() = default;
};
class ReferenceExecutor : public OmpExecutor
{
public:
    static std::shared_ptr<ReferenceExecutor> create() { return std::shared_ptr<ReferenceExecutor>(new ReferenceExecutor()); }
    std::string get_description() const override { return "ReferenceExecutor"; }
};
class CudaExecutor : public Executor
{
public:
    static std::shared_ptr<CudaExecutor> create(int, std::shared_ptr<Executor>) { return std::shared_ptr<CudaExecutor>(new CudaExecutor()); }
    std::string get_description() const override { return "CudaExecutor"; }
};
class HipExecutor : public Executor
{
public:
    static std::shared_ptr<HipExecutor> create(int, std::shared_ptr<Executor>) { return std::shared_ptr<HipExecutor>(new HipExecutor()); }
    std::string get_description() const override { return "HipExecutor"; }
};

// ---- smart pointers
template<typename P>
auto share(P&& p)
{
    return std::shared_ptr<typename std::remove_reference_t<P>::element_type>(std::forward<P>(p));
}
template<typename T>
std::unique_ptr<T> clone(const T* p)
{
    return std::make_unique<T>(*p);
}
template<typename P>
auto lend(const P& p)
{
    return p.get();
}
template<typename P>
std::remove_reference_t<P>&& give(P&& p)
{
    return std::move(p);
}
template<typename T>
class ptr_param
{
public:
    ptr_param(T* p) : p_(p) {}
    template<typename U, std::enable_if_t<std::is_convertible_v<U*, T*>>* = nullptr>
    ptr_param(const std::shared_ptr<U>& p) : p_(p.get())
    {}
    template<typename U, typename D, std::enable_if_t<std::is_convertible_v<U*, T*>>* = nullptr>
    ptr_param(const std::unique_ptr<U, D>& p) : p_(p.get())
    {}
    T& operator*() const { return *p_; }
    T* operator->() const { return p_; }
    T* get() const { return p_; }
    explicit operator bool() const { return p_; }

private:
    T* p_;
};

// ---- arrays
template<typename T>
class array;
namespace detail
{
template<typename T>
class const_array_view
{
public:
    using value_type = T;
    const_array_view(std::shared_ptr<const Executor> e, size_type n, const T* p) : exec_(std::move(e)), n_(n), p_(p) {}
    const_array_view(const const_array_view&) = delete;
    const_array_view& operator=(const const_array_view&) = delete;
    const_array_view(const_array_view&&) = default;
    size_type get_size() const noexcept { return n_; }
    size_type get_num_elems() const noexcept { return n_; }
    const T* get_const_data() const noexcept { return p_; }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }
    bool is_owning() const noexcept { return false; }
    array<T> copy_to_array() const;

private:
    std::shared_ptr<const Executor> exec_;
    size_type n_;
    const T* p_;
};
}
template<typename T>
class array
{
public:
    using value_type = T;
    array() = default;
    explicit array(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    array(std::shared_ptr<const Executor> e, size_type n) : exec_(std::move(e)), own_(new T[n ? n : 1]), p_(own_.get()), n_(n) {}
    template<typename It>
    array(std::shared_ptr<const Executor> e, It b, It x) : array(std::move(e), size_type(std::distance(b, x)))
    {
        std::copy(b, x, p_);
    }
    template<typename U>
    array(std::shared_ptr<const Executor> e, std::initializer_list<U> l) : array(std::move(e), l.begin(), l.end())
    {}
    array(std::shared_ptr<const Executor> e, const array& o) : array(std::move(e), o.p_, o.p_ + o.n_) {}
    array(const array& o) : array(o.exec_, o) {}
    array(array&& o) noexcept : exec_(o.exec_), own_(std::move(o.own_)), p_(o.p_), n_(o.n_)
    {
        o.p_ = nullptr;
        o.n_ = 0;
    }
    array& operator=(const array& o)
    {
        if (this == &o) return *this;
        if (!exec_) exec_ = o.exec_;
        if (is_owning() || !p_) *this = array(exec_, o);
        else
        {
            // a view takes the values if they fit
            if (o.n_ > n_) throw Error(__FILE__, __LINE__, "copying into a view that is too small");
            std::copy(o.p_, o.p_ + o.n_, p_);
        }
        return *this;
    }
    array& operator=(array&& o) noexcept
    {
        std::swap(exec_, o.exec_);
        std::swap(own_, o.own_);
        std::swap(p_, o.p_);
        std::swap(n_, o.n_);
        return *this;
    }
    static array view(std::shared_ptr<const Executor> e, size_type n, T* p)
    {
        array a(std::move(e));
        a.p_ = p;
        a.n_ = n;
        return a;
    }
    static detail::const_array_view<T> const_view(std::shared_ptr<const Executor> e, size_type n, const T* p)
    {
        return detail::const_array_view<T>(std::move(e), n, p);
    }
    array<T> as_view() { return view(exec_, n_, p_); }
    detail::const_array_view<T> as_const_view() const { return const_view(exec_, n_, p_); }
    void fill(T v) { std::fill(p_, p_ + n_, v); }
    size_type get_size() const noexcept { return n_; }
    size_type get_num_elems() const noexcept { return n_; }
    T* get_data() noexcept { return p_; }
    const T* get_const_data() const noexcept { return p_; }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }
    bool is_owning() const noexcept { return bool(own_); }

private:
    std::shared_ptr<const Executor> exec_;
    std::unique_ptr<T[]> own_;
    T* p_ = nullptr;
    size_type n_ = 0;
};
template<typename T>
array<T> detail::const_array_view<T>::copy_to_array() const
{
    return array<T>(exec_, p_, p_ + n_);
}
template<typename T>
array<T> make_array_view(std::shared_ptr<const Executor> e, size_type n, T* p)
{
    return array<T>::view(std::move(e), n, p);
}
template<typename T>
detail::const_array_view<T> make_const_array_view(std::shared_ptr<const Executor> e, size_type n, const T* p)
{
    return array<T>::const_view(std::move(e), n, p);
}

// ---- linear operators
template<std::size_t N>
struct dim
{
    size_type d[N] {};
    dim() = default;
    explicit dim(size_type n)
    {
        for (auto& x : d) x = n;
    }
    dim(size_type a, size_type b) : d {a, b} {}
    size_type operator[](size_type i) const { return d[i]; }
    size_type& operator[](size_type i) { return d[i]; }
    bool operator==(const dim& o) const { return std::equal(d, d + N, o.d); }
    explicit operator bool() const { return d[0] && d[1]; }
};
class LinOp
{
public:
    virtual ~LinOp() = default;
    dim<2> get_size() const noexcept { return size_; }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }
    LinOp* apply(ptr_param<const LinOp> b, ptr_param<LinOp> x)
    {
        static_cast<const LinOp*>(this)->apply(b, x);
        return this;
    }
    const LinOp* apply(ptr_param<const LinOp> b, ptr_param<LinOp> x) const
    {
        auto s = get_size(), sb = b->get_size(), sx = x->get_size();
        if (s[1] != sb[0] || s[0] != sx[0] || sb[1] != sx[1]) throw DimensionMismatch(__FILE__, __LINE__, "apply");
        apply_impl(b.get(), x.get());
        return this;
    }
    template<typename L>
    void add_logger(L)
    {}

protected:
    LinOp(std::shared_ptr<const Executor> e, const dim<2>& s) : exec_(std::move(e)), size_(s) {}
    virtual void apply_impl(const LinOp*, LinOp*) const = 0;
    std::shared_ptr<const Executor> exec_;
    dim<2> size_;
};
template<typename V, typename I>
struct matrix_data;

namespace matrix
{
template<typename V>
class Dense : public LinOp
{
public:
    using value_type = V;
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, const dim<2>& s = {}) { return create(e, s, s[1]); }
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, const dim<2>& s, size_type stride)
    {
        return create(e, s, array<V>(e, s[0] * stride), stride);
    }
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> values, size_type stride)
    {
        if (s[0] && (s[0] - 1) * stride + s[1] > values.get_size()) throw BadDimension(__FILE__, __LINE__, "Dense: too few values");
        return std::unique_ptr<Dense>(new Dense(std::move(e), s, std::move(values), stride));
    }
    static std::unique_ptr<const Dense> create_const(std::shared_ptr<const Executor> e, const dim<2>& s, detail::const_array_view<V>&& v, size_type stride)
    {
        return create(e, s, array<V>::view(e, v.get_size(), const_cast<V*>(v.get_const_data())), stride);
    }
    V* get_values() noexcept { return values_.get_data(); }
    const V* get_const_values() const noexcept { return values_.get_const_data(); }
    size_type get_stride() const noexcept { return stride_; }
    size_type get_num_stored_elements() const noexcept { return values_.get_size(); }
    V& at(size_type i, size_type j = 0) { return values_.get_data()[i * stride_ + j]; }
    V at(size_type i, size_type j = 0) const { return values_.get_const_data()[i * stride_ + j]; }
    void fill(V v) { values_.fill(v); }
    bool is_view() const { return !values_.is_owning(); }
    Dense* copy_from(ptr_param<const Dense> o)
    {
        size_ = o->size_;
        stride_ = o->stride_;
        values_ = o->values_;
        return this;
    }

protected:
    Dense(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> v, size_type stride) : LinOp(std::move(e), s), values_(std::move(v)), stride_(stride) {}
    void apply_impl(const LinOp*, LinOp*) const override { throw Error(__FILE__, __LINE__, "stand-in: Dense::apply"); }

private:
    array<V> values_;
    size_type stride_;
};
template<typename V, typename I>
class Csr : public LinOp
{
public:
    using value_type = V;
    using index_type = I;
    static std::unique_ptr<Csr> create(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> values, array<I> cols, array<I> rows)
    {
        if (values.get_size() != cols.get_size()) throw ValueMismatch(__FILE__, __LINE__, "Csr: values and columns differ in number");
        if (s[0] + 1 != rows.get_size()) throw ValueMismatch(__FILE__, __LINE__, "Csr: row pointers do not fit the size");
        return std::unique_ptr<Csr>(new Csr(std::move(e), s, std::move(values), std::move(cols), std::move(rows)));
    }
    static std::unique_ptr<const Csr> create_const(
        std::shared_ptr<const Executor> e, const dim<2>& s, detail::const_array_view<V>&& v, detail::const_array_view<I>&& c, detail::const_array_view<I>&& r)
    {
        return create(e, s, array<V>::view(e, v.get_size(), const_cast<V*>(v.get_const_data())), array<I>::view(e, c.get_size(), const_cast<I*>(c.get_const_data())),
            array<I>::view(e, r.get_size(), const_cast<I*>(r.get_const_data())));
    }
    const V* get_const_values() const noexcept { return values_.get_const_data(); }
    const I* get_const_col_idxs() const noexcept { return cols_.get_const_data(); }
    const I* get_const_row_ptrs() const noexcept { return rows_.get_const_data(); }
    V* get_values() noexcept { return values_.get_data(); }
    I* get_col_idxs() noexcept { return cols_.get_data(); }
    I* get_row_ptrs() noexcept { return rows_.get_data(); }
    size_type get_num_stored_elements() const noexcept { return values_.get_size(); }

protected:
    Csr(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> v, array<I> c, array<I> r)
        : LinOp(std::move(e), s), values_(std::move(v)), cols_(std::move(c)), rows_(std::move(r))
    {}
    void apply_impl(const LinOp*, LinOp*) const override { throw Error(__FILE__, __LINE__, "stand-in: Csr::apply"); }

private:
    array<V> values_;
    array<I> cols_, rows_;
};
}

class LinOpFactory
{
public:
    virtual ~LinOpFactory() = default;
    std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp> m) const { return generate_impl(std::move(m)); }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }

protected:
    explicit LinOpFactory(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    virtual std::unique_ptr<LinOp> generate_impl(std::shared_ptr<const LinOp>) const = 0;
    std::shared_ptr<const Executor> exec_;
};

// ---- configuration
namespace config
{
class pnode
{
public:
    using key_type = std::string;
    using map_type = std::map<key_type, pnode>;
    using array_type = std::vector<pnode>;
    enum class tag_t
    {
        empty,
        array,
        boolean,
        real,
        integer,
        string,
        map
    };
    pnode() = default;
    explicit pnode(bool b) : tag_(tag_t::boolean), boolean_(b) {}
    template<typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>* = nullptr>
    explicit pnode(T i) : tag_(tag_t::integer), integer_(std::int64_t(i))
    {
        if (i > 0 && std::uint64_t(i) > std::uint64_t(std::numeric_limits<std::int64_t>::max())) throw OverflowError(__FILE__, __LINE__, "pnode");
    }
    explicit pnode(const std::string& s) : tag_(tag_t::string), string_(s) {}
    explicit pnode(const char* s) : pnode(std::string(s)) {}
    template<typename T, std::enable_if_t<std::is_floating_point_v<T>>* = nullptr>
    explicit pnode(T r) : tag_(tag_t::real), real_(double(r))
    {}
    explicit pnode(const array_type& a) : tag_(tag_t::array), array_(a) {}
    explicit pnode(const map_type& m) : tag_(tag_t::map), map_(m) {}
    explicit operator bool() const noexcept { return tag_ != tag_t::empty; }
    tag_t get_tag() const noexcept { return tag_; }
    const array_type& get_array() const { return need(tag_t::array), array_; }
    const map_type& get_map() const { return need(tag_t::map), map_; }
    bool get_boolean() const { return need(tag_t::boolean), boolean_; }
    std::int64_t get_integer() const { return need(tag_t::integer), integer_; }
    double get_real() const { return need(tag_t::real), real_; }
    const std::string& get_string() const { return need(tag_t::string), string_; }
    const pnode& get(const std::string& k) const
    {
        static const pnode none;
        need(tag_t::map);
        auto i = map_.find(k);
        return i == map_.end() ? none : i->second;
    }
    const pnode& get(int i) const { return need(tag_t::array), array_.at(size_t(i)); }
    bool operator==(const pnode& o) const
    {
        if (tag_ != o.tag_) return false;
        switch (tag_)
        {
        case tag_t::array: return array_ == o.array_;
        case tag_t::boolean: return boolean_ == o.boolean_;
        case tag_t::real: return real_ == o.real_;
        case tag_t::integer: return integer_ == o.integer_;
        case tag_t::string: return string_ == o.string_;
        case tag_t::map: return map_ == o.map_;
        default: return true;
        }
    }
    bool operator!=(const pnode& o) const { return !(*this == o); }

private:
    void need(tag_t t) const
    {
        if (tag_ != t) throw InvalidStateError(__FILE__, __LINE__, "pnode of another kind");
    }
    tag_t tag_ = tag_t::empty;
    array_type array_;
    map_type map_;
    std::string string_;
    std::int64_t integer_ = 0;
    double real_ = 0;
    bool boolean_ = false;
};
class registry
{
public:
    registry() = default;
};
class type_descriptor
{
public:
    explicit type_descriptor(std::string v = "float64", std::string i = "int32") : v_(std::move(v)), i_(std::move(i)) {}
    const std::string& get_value_typestr() const { return v_; }
    const std::string& get_index_typestr() const { return i_; }

private:
    std::string v_, i_;
};
template<typename V = double, typename I = std::int32_t>
type_descriptor make_type_descriptor()
{
    std::string v = std::is_same_v<V, double> ? "float64" : std::is_same_v<V, float> ? "float32" : "void";
    std::string i = std::is_same_v<I, std::int32_t> ? "int32" : std::is_same_v<I, std::int64_t> ? "int64" : "void";
    return type_descriptor(v, i);
}
}

// ---- the recording solver
namespace standin
{
struct Solved
{
    config::pnode config;
    std::string types;
    std::shared_ptr<const Executor> factoryExec;
    const matrix::Csr<double, std::int32_t>* A;
    const matrix::Dense<double>* b;
    matrix::Dense<double>* x;
};
// called with everything a solver is given; it writes the answer to x
inline std::function<void(const Solved&)>& hook()
{
    static std::function<void(const Solved&)> h;
    return h;
}
class Solver : public LinOp
{
public:
    Solver(std::shared_ptr<const Executor> e, std::shared_ptr<const LinOp> m, config::pnode c, std::string t)
        : LinOp(e, m->get_size()), m_(std::move(m)), c_(std::move(c)), t_(std::move(t))
    {}

protected:
    void apply_impl(const LinOp* b, LinOp* x) const override
    {
        auto a = dynamic_cast<const matrix::Csr<double, std::int32_t>*>(m_.get());
        auto db = dynamic_cast<const matrix::Dense<double>*>(b);
        auto dx = dynamic_cast<matrix::Dense<double>*>(x);
        if (!a || !db || !dx) throw Error(__FILE__, __LINE__, "stand-in: other types than Csr<double, int32> and Dense<double>");
        hook()(Solved {c_, t_, exec_, a, db, dx});
    }

private:
    std::shared_ptr<const LinOp> m_;
    config::pnode c_;
    std::string t_;
};
class Factory : public LinOpFactory
{
public:
    Factory(std::shared_ptr<const Executor> e, config::pnode c, std::string t) : LinOpFactory(std::move(e)), c_(std::move(c)), t_(std::move(t)) {}

protected:
    std::unique_ptr<LinOp> generate_impl(std::shared_ptr<const LinOp> m) const override { return std::make_unique<Solver>(exec_, std::move(m), c_, t_); }

private:
    config::pnode c_;
    std::string t_;
};
}
template<typename F>
class deferred_factory_parameter
{
public:
    deferred_factory_parameter(config::pnode c, std::string t) : c_(std::move(c)), t_(std::move(t)) {}
    std::shared_ptr<const F> on(std::shared_ptr<const Executor> e) const { return std::make_shared<standin::Factory>(std::move(e), c_, t_); }
    explicit operator bool() const { return true; }

private:
    config::pnode c_;
    std::string t_;
};
namespace config
{
inline deferred_factory_parameter<const LinOpFactory> parse(const pnode& c, const registry&, const type_descriptor& t = make_type_descriptor<>())
{
    return deferred_factory_parameter<const LinOpFactory>(c, t.get_value_typestr() + "," + t.get_index_typestr());
}
}
}
