// C31: reductions over all ranks, and messages of plain values.
#include "ranks.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include <complex>
#include <limits>
using namespace num;
namespace mpi = NeoFOAM::mpi;
using mpi::ReduceOp;

template<typename F>
auto withType(size_t k, F f)
{
    switch (k)
    {
    case 0: return f(int {});
    case 1: return f(double {});
    case 2: return f(Vector {});
    case 3: return f(bool {});
    case 4: return f(float {});
    case 5: return f(long {});
    case 6: return f(short {});
    case 7: return f(0ll);
    case 8: return f((unsigned short)(0));
    case 9: return f(0u);
    case 10: return f(0ul);
    case 11: return f(0ull);
    case 12: return f(0.0L);
    case 13: return f(std::complex<double> {});
    case 14: return f(std::complex<float> {});
    case 15: return f(std::complex<long double> {});
    case 16: return f(char {});
    default: return f(wchar_t {});
    }
}
constexpr size_t REDUCED = 16, TYPES = 18;

template<typename T>
constexpr bool isComplex = false;
template<typename T>
constexpr bool isComplex<std::complex<T>> = true;

// a value such that neither the sum nor the product of four of them is rounded or overflows
template<typename T>
T value(pbt::Gen& g, ReduceOp op)
{
    bool small = op == ReduceOp::Sum || op == ReduceOp::Prod;
    if constexpr (std::is_same_v<T, bool>) return g.boolean();
    else if constexpr (std::is_same_v<T, Vector>) return Vector(value<NeoFOAM::scalar>(g, op), value<NeoFOAM::scalar>(g, op), value<NeoFOAM::scalar>(g, op));
    else if constexpr (isComplex<T>) return T(typename T::value_type(int(g.below(9)) - 4), typename T::value_type(int(g.below(9)) - 4));
    else if constexpr (std::is_floating_point_v<T>)
    {
        if (!small && g.chance(1, 4)) return T(g.pick(std::vector<double> {std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), 1e-30, -1e-30, 0.0, 16777217.0, 16777219.0}));
        // beyond the accuracy of float for the others
        T fine = std::is_same_v<T, float> || op == ReduceOp::Prod ? T(0) : T(std::ldexp(T(g.below(8)), std::is_same_v<T, double> ? -40 : -50));
        return T(int(g.below(19)) - 9) + fine;
    }
    else
    {
        if (!small && g.chance(1, 2))
        {
            T v = T(g.below(std::numeric_limits<uint64_t>::max()));
            return g.chance(1, 4) ? g.pick(std::vector<T> {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0), T(-1)}) : v;
        }
        if (op == ReduceOp::Sum && sizeof(T) == 8 && g.boolean()) return T(T(g.below(1u << 30)) << 30);
        if (op == ReduceOp::Prod) return std::is_signed_v<T> ? T(int(g.below(19)) - 9) : T(g.below(15));
        return std::is_signed_v<T> ? T(int(g.below(13)) - 6) : T(g.below(13));
    }
}

template<typename T>
T reduced(ReduceOp op, const std::vector<T>& v)
{
    T r = v[0];
    if constexpr (std::is_same_v<T, Vector>)
    {
        for (size_t k = 0; k < 3; k++)
        {
            std::vector<NeoFOAM::scalar> c;
            for (auto& x : v) c.push_back(x[k]);
            r[k] = reduced(op, c);
        }
        return r;
    }
    else
    {
        if constexpr (std::is_integral_v<T>)
            if (op == ReduceOp::Land || op == ReduceOp::Lor) r = T(r != T(0));
        for (size_t k = 1; k < v.size(); k++)
        {
            T x = v[k];
            if (op == ReduceOp::Sum) r = T(r + x);
            else if (op == ReduceOp::Prod) r = T(r * x);
            else if constexpr (!isComplex<T>)
            {
                if (op == ReduceOp::Max) r = x > r ? x : r;
                else if (op == ReduceOp::Min) r = x < r ? x : r;
                else if constexpr (std::is_integral_v<T>)
                {
                    if (op == ReduceOp::Land) r = T(r != T(0) && x != T(0));
                    else if (op == ReduceOp::Lor) r = T(r != T(0) || x != T(0));
                    else if (op == ReduceOp::Band) r = T(r & x);
                    else r = T(r | x);
                }
            }
        }
        return r;
    }
}
template<typename T>
bool alike(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Vector>) return a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    else return a == b;
}
// a truth value may be any number but 0 (a single value comes back as it is)
template<typename T>
bool agrees(ReduceOp op, const T& a, const T& b)
{
    if constexpr (std::is_integral_v<T>)
        if (op == ReduceOp::Land || op == ReduceOp::Lor) return (a != T(0)) == (b != T(0));
    return alike(a, b);
}
template<typename T>
std::vector<ReduceOp> operations()
{
    if constexpr (isComplex<T>) return {ReduceOp::Sum, ReduceOp::Prod};
    else if constexpr (std::is_same_v<T, bool>) return {ReduceOp::Land, ReduceOp::Lor};
    else if constexpr (std::is_integral_v<T>)
        return {ReduceOp::Sum, ReduceOp::Max, ReduceOp::Min, ReduceOp::Prod, ReduceOp::Land, ReduceOp::Lor, ReduceOp::Band, ReduceOp::Bor};
    else return {ReduceOp::Sum, ReduceOp::Max, ReduceOp::Min, ReduceOp::Prod};
}
static const char* const OPS[] = {"max", "min", "sum", "product", "logical and", "bitwise and", "logical or", "bitwise or", "maxloc", "minloc"};

// one reduction: `set` prepares, `go` runs it on one rank
struct Step
{
    std::function<void(size_t, MPI_Comm)> go;
    std::string what;
};

PBT(reductions, 40000, 800000, "Two ranks or more, whose values are not all the same.")
{
    Ranks ranks(g, 4);
    size_t n = ranks.size(), steps = g.size(1, 4);
    bool differ = false;
    std::vector<Step> plan;
    std::string s;
    for (size_t k = 0; k < steps; k++)
    {
        withType(g.index(REDUCED),
            [&](auto zero)
            {
                using T = decltype(zero);
                auto op = g.pick(operations<T>());
                std::vector<T> v;
                for (size_t r = 0; r < n; r++) v.push_back(value<T>(g, op));
                for (const T& x : v) differ |= !alike(x, T(v[0]));
                T want = reduced(op, v);
                s += std::string(" ") + OPS[size_t(op)] + " of " + (std::is_same_v<T, Vector> ? "Vector" : typeid(T).name());
                plan.push_back({[=](size_t me, MPI_Comm comm)
                    {
                        // between values that have to stay
                        struct { T before, mine, after; } x {v[0], v[me], v[0]};
                        mpi::allReduce(x.mine, op, comm);
                        PBT_CHECK(agrees(op, x.mine, want), "rank ", me, " of ", v.size(), ": the ", OPS[size_t(op)], " of ", std::is_same_v<T, Vector> ? "Vector" : typeid(T).name(), " is wrong");
                        PBT_CHECK(alike(x.before, T(v[0])) && alike(x.after, T(v[0])), "rank ", me, ": more than the value has changed");
                    },
                    ""});
            });
    }
    g.note("reductions:", s);
    if (n > 1 && differ) g.nontrivial();
    g.label(std::to_string(n) + " ranks");
    ranks.run([&](size_t me) { for (auto& p : plan) p.go(me, mpi::MPIEnvironment(ranks.comm).comm()); });
}

// values sent between ranks
template<typename T>
T word(uint64_t seed, size_t k)
{
    uint64_t h = (seed + k * 977 + 1) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    if constexpr (std::is_same_v<T, bool>) return h & 1;
    else if constexpr (isComplex<T>) return T(typename T::value_type(h % 1000), typename T::value_type((h >> 20) % 1000));
    else if constexpr (std::is_floating_point_v<T>) return T(int(h % 100000) - 50000);
    else return T(h);
}
PBT(messages, 40000, 800000, "Two messages or more between different ranks, the receives not posted in the order of the sends or of several types.")
{
    Ranks ranks(g, 4);
    size_t n = ranks.size();
    struct M
    {
        size_t from, to, type, count, tag;
        uint64_t seed;
        bool early; // looked at before it is waited for
    };
    std::vector<M> ms;
    size_t many = g.size(1, 8);
    std::set<size_t> types;
    auto tags = g.permutation(40);
    for (size_t k = 0; k < many; k++)
    {
        size_t type = g.index(TYPES);
        if (type == 2) type = 0; // there is no type of MPI for Vector
        // the tags differ, up to the largest that every implementation takes
        size_t tag = tags[k] == 39 ? 32767 : tags[k] * 7;
        ms.push_back({g.index(n), g.index(n), type, g.size(0, 6), tag, g.below(1u << 30), g.boolean()});
        if (ms.back().from != ms.back().to) types.insert(type);
    }
    // each rank posts what it takes part in in an order of its own
    std::vector<std::vector<size_t>> order, waits;
    bool mixed = types.size() > 1;
    for (size_t r = 0; r < n; r++)
    {
        order.push_back(g.permutation(2 * many));
        waits.push_back(g.permutation(2 * many));
    }
    g.note(many, " messages");
    if (n > 1 && mixed) g.nontrivial();
    std::vector<char> posted(many);
    ranks.run(
        [&](size_t me)
        {
            std::vector<std::function<void()>> finish(2 * many);
            std::vector<std::shared_ptr<void>> keep;
            for (size_t slot : order[me])
            {
                size_t k = slot / 2;
                bool send = slot % 2;
                const auto& m = ms[k];
                if ((send ? m.from : m.to) != me) continue;
                withType(m.type,
                    [&](auto zero)
                    {
                        using T = decltype(zero);
                        if constexpr (!std::is_same_v<T, Vector>)
                        {
                            auto data = std::shared_ptr<T[]>(new T[m.count + 2]());
                            auto request = std::make_shared<MPI_Request>(MPI_REQUEST_NULL);
                            keep.push_back(request);
                            for (size_t i = 0; i < m.count + 2; i++) data[i] = word<T>(send ? m.seed : ~m.seed, i);
                            if (send)
                            {
                                posted[k] = 1;
                                mpi::isend<T>(data.get() + 1, int(m.count), int(m.to), int(m.tag), ranks.comm, request.get());
                            }
                            else mpi::irecv<T>(data.get() + 1, int(m.count), int(m.from), int(m.tag), ranks.comm, request.get());
                            auto look = [=, &posted, &m]
                            {
                                bool done = mpi::test(request.get());
                                if (!done) return false;
                                if (!send) PBT_CHECK(posted[k], "rank ", me, ": a message is here before it was sent");
                                for (size_t i = 0; i < m.count + 2; i++)
                                {
                                    bool inside = i > 0 && i <= m.count;
                                    T want = word<T>(send || inside ? m.seed : ~m.seed, i);
                                    PBT_CHECK(data[i] == want, "rank ", me, ": element ", int(i) - 1, " of ", m.count, " of a message of ", typeid(T).name(), send ? " has changed" : " is wrong");
                                }
                                return true;
                            };
                            if (m.early) look();
                            finish[slot] = [=] { while (!look()) {} };
                        }
                    });
            }
            for (size_t slot : waits[me])
                if (finish[slot]) finish[slot]();
        });
}

PBT(environment, 4000, 40000, "Part of the world.")
{
    Ranks ranks(g, 5);
    if (ranks.size() < ranks.fresh.w.alive.size()) g.nontrivial();
    g.label(std::to_string(ranks.size()) + " ranks");
    size_t world = ranks.fresh.w.alive.size();
    {
        static char name[] = "program";
        char* argv[] = {name, nullptr};
        mpi::MPIInit init(1, argv);
        PBT_CHECK(ranks.fresh.w.initialized && !ranks.fresh.w.finalized, "MPI is not initialised, or is finished already");
        ranks.run(
            [&](size_t me)
            {
                mpi::MPIEnvironment env(ranks.comm), copy = env, all;
                PBT_CHECK(env.rank() == me && env.sizeRank() == ranks.size() && env.comm() == ranks.comm, "rank ", env.rank(), " of ", env.sizeRank(), ", expected ", me, " of ", ranks.size());
                PBT_CHECK(copy.rank() == me && copy.sizeRank() == ranks.size() && copy.comm() == ranks.comm, "the copy says rank ", copy.rank(), " of ", copy.sizeRank());
                PBT_CHECK(all.rank() == size_t(ranks.members[me]) && all.sizeRank() == world && all.comm() == MPI_COMM_WORLD, "rank ", all.rank(), " of ", all.sizeRank(), " in the world, expected ", ranks.members[me], " of ", world);
                all = env;
                PBT_CHECK(all.rank() == me && all.sizeRank() == ranks.size() && all.comm() == ranks.comm, "assigned: rank ", all.rank(), " of ", all.sizeRank());
            });
        PBT_CHECK(!ranks.fresh.w.finalized, "MPI is finished too early");
    }
    PBT_CHECK(ranks.fresh.w.finalized, "MPI is not finished");
    // names of the operations
    const std::vector<std::pair<ReduceOp, MPI_Op>> ops {{ReduceOp::Max, MPI_MAX}, {ReduceOp::Min, MPI_MIN}, {ReduceOp::Sum, MPI_SUM}, {ReduceOp::Prod, MPI_PROD}, {ReduceOp::Land, MPI_LAND},
        {ReduceOp::Band, MPI_BAND}, {ReduceOp::Lor, MPI_LOR}, {ReduceOp::Bor, MPI_BOR}, {ReduceOp::Maxloc, MPI_MAXLOC}, {ReduceOp::Minloc, MPI_MINLOC}};
    auto& p = g.pick(ops);
    PBT_CHECK(mpi::getOp(p.first) == p.second, "the operation of MPI for ", OPS[size_t(p.first)], " is wrong");
}
