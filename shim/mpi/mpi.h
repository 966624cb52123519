// A stand-in for the part of MPI this project uses, so that the harness owns the interleaving of the ranks and the network.
//
// The ranks are threads of one process that hand a baton to each other: every call is a point where another rank may be chosen to
// go on, and where the network may deliver any of the messages that are matched.  Both choices come from a generator the harness
// seeds.  A message is read when it is sent (eager) or when it is delivered, also by choice.  What the standard guarantees holds:
// messages between two ranks with the same tag and communicator do not overtake each other, and a request completes when the standard
// says so and becomes MPI_REQUEST_NULL.  When no rank gets anywhere, every rank fails with Stuck.
#pragma once
#include <algorithm>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

// ---- types
enum class StandinKind
{
    SIGNED,
    UNSIGNED,
    FLOAT,
    COMPLEX,
    LOGICAL,
    BYTE,
    PAIR
};
struct StandinType
{
    size_t size;
    StandinKind kind;
    const char* name;
};
using MPI_Datatype = const StandinType*;
#define STANDIN_TYPE(NAME, T, KIND) inline constexpr StandinType standin_##NAME {sizeof(T), StandinKind::KIND, #NAME};
STANDIN_TYPE(CHAR, char, SIGNED)
STANDIN_TYPE(SIGNED_CHAR, signed char, SIGNED)
STANDIN_TYPE(UNSIGNED_CHAR, unsigned char, UNSIGNED)
STANDIN_TYPE(WCHAR, wchar_t, SIGNED)
STANDIN_TYPE(SHORT, short, SIGNED)
STANDIN_TYPE(INT, int, SIGNED)
STANDIN_TYPE(LONG, long, SIGNED)
STANDIN_TYPE(LONG_LONG, long long, SIGNED)
STANDIN_TYPE(UNSIGNED_SHORT, unsigned short, UNSIGNED)
STANDIN_TYPE(UNSIGNED, unsigned, UNSIGNED)
STANDIN_TYPE(UNSIGNED_LONG, unsigned long, UNSIGNED)
STANDIN_TYPE(UNSIGNED_LONG_LONG, unsigned long long, UNSIGNED)
STANDIN_TYPE(FLOAT, float, FLOAT)
STANDIN_TYPE(DOUBLE, double, FLOAT)
STANDIN_TYPE(LONG_DOUBLE, long double, FLOAT)
STANDIN_TYPE(CXX_BOOL, bool, LOGICAL)
STANDIN_TYPE(CXX_FLOAT_COMPLEX, std::complex<float>, COMPLEX)
STANDIN_TYPE(CXX_DOUBLE_COMPLEX, std::complex<double>, COMPLEX)
STANDIN_TYPE(CXX_LONG_DOUBLE_COMPLEX, std::complex<long double>, COMPLEX)
STANDIN_TYPE(BYTE, char, BYTE)
STANDIN_TYPE(INT8_T, int8_t, SIGNED)
STANDIN_TYPE(INT16_T, int16_t, SIGNED)
STANDIN_TYPE(INT32_T, int32_t, SIGNED)
STANDIN_TYPE(INT64_T, int64_t, SIGNED)
STANDIN_TYPE(UINT8_T, uint8_t, UNSIGNED)
STANDIN_TYPE(UINT16_T, uint16_t, UNSIGNED)
STANDIN_TYPE(UINT32_T, uint32_t, UNSIGNED)
STANDIN_TYPE(UINT64_T, uint64_t, UNSIGNED)
#define MPI_CHAR (&standin_CHAR)
#define MPI_SIGNED_CHAR (&standin_SIGNED_CHAR)
#define MPI_UNSIGNED_CHAR (&standin_UNSIGNED_CHAR)
#define MPI_WCHAR (&standin_WCHAR)
#define MPI_SHORT (&standin_SHORT)
#define MPI_INT (&standin_INT)
#define MPI_LONG (&standin_LONG)
#define MPI_LONG_LONG (&standin_LONG_LONG)
#define MPI_LONG_LONG_INT (&standin_LONG_LONG)
#define MPI_UNSIGNED_SHORT (&standin_UNSIGNED_SHORT)
#define MPI_UNSIGNED (&standin_UNSIGNED)
#define MPI_UNSIGNED_LONG (&standin_UNSIGNED_LONG)
#define MPI_UNSIGNED_LONG_LONG (&standin_UNSIGNED_LONG_LONG)
#define MPI_FLOAT (&standin_FLOAT)
#define MPI_DOUBLE (&standin_DOUBLE)
#define MPI_LONG_DOUBLE (&standin_LONG_DOUBLE)
#define MPI_CXX_BOOL (&standin_CXX_BOOL)
#define MPI_C_BOOL (&standin_CXX_BOOL)
#define MPI_CXX_FLOAT_COMPLEX (&standin_CXX_FLOAT_COMPLEX)
#define MPI_CXX_DOUBLE_COMPLEX (&standin_CXX_DOUBLE_COMPLEX)
#define MPI_CXX_LONG_DOUBLE_COMPLEX (&standin_CXX_LONG_DOUBLE_COMPLEX)
#define MPI_C_FLOAT_COMPLEX (&standin_CXX_FLOAT_COMPLEX)
#define MPI_C_DOUBLE_COMPLEX (&standin_CXX_DOUBLE_COMPLEX)
#define MPI_BYTE (&standin_BYTE)
#define MPI_INT8_T (&standin_INT8_T)
#define MPI_INT16_T (&standin_INT16_T)
#define MPI_INT32_T (&standin_INT32_T)
#define MPI_INT64_T (&standin_INT64_T)
#define MPI_UINT8_T (&standin_UINT8_T)
#define MPI_UINT16_T (&standin_UINT16_T)
#define MPI_UINT32_T (&standin_UINT32_T)
#define MPI_UINT64_T (&standin_UINT64_T)
#define MPI_DATATYPE_NULL (static_cast<MPI_Datatype>(nullptr))

enum MPI_Op
{
    MPI_OP_NULL,
    MPI_MAX,
    MPI_MIN,
    MPI_SUM,
    MPI_PROD,
    MPI_LAND,
    MPI_BAND,
    MPI_LOR,
    MPI_BOR,
    MPI_LXOR,
    MPI_BXOR,
    MPI_MAXLOC,
    MPI_MINLOC
};

struct StandinComm
{
    std::vector<int> world; // the members' ranks in the world
    int id;
};
using MPI_Comm = StandinComm*;
struct StandinRequest;
using MPI_Request = StandinRequest*;
struct MPI_Status
{
    int MPI_SOURCE = -1, MPI_TAG = -1, MPI_ERROR = 0;
    size_t bytes = 0;
};
using MPI_Aint = long;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_REQUEST_NULL (static_cast<MPI_Request>(nullptr))
#define MPI_COMM_NULL (static_cast<MPI_Comm>(nullptr))
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_ERROR_STRING 256
#define MPI_TAG_UB 1
inline char standin_in_place;
#define MPI_IN_PLACE (static_cast<void*>(&standin_in_place))

struct StandinRequest
{
    bool send = false, done = false, eager = false;
    int comm = 0, from = 0, to = 0, tag = 0; // ranks in the communicator; from may be MPI_ANY_SOURCE
    char* data = nullptr;
    size_t bytes = 0;
    std::vector<char> copy;
    StandinRequest* match = nullptr;
    bool delivered = false, released = false;
    MPI_Status status;
};

namespace standin_mpi
{
// no rank gets anywhere any more
struct Stuck : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
// the program under test misuses the interface
struct Misuse : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Collective
{
    std::string what;
    std::map<int, std::vector<char>> in; // by rank in the communicator
    int taken = 0;
};

struct World
{
    std::mutex m;
    std::condition_variable cv;
    int current = 0;
    std::vector<bool> alive {true};
    bool dead = false;
    uint64_t rng = 0;
    long idle = 0, limit = 20000;
    std::list<std::unique_ptr<StandinRequest>> requests;
    std::deque<StandinRequest*> sends, recvs; // not matched yet, in the order in which they were posted
    std::vector<StandinRequest*> wire;        // matched sends not delivered yet
    std::map<std::pair<int, long>, Collective> collectives;
    std::map<std::pair<int, int>, long> calls; // collective calls so far by communicator and rank
    std::vector<std::unique_ptr<StandinComm>> comms;
    StandinComm world {{0}, 0}, self {{0}, 1};
    unsigned long messages = 0, eager = 0, switches = 0;
    bool finalized = false, initialized = true;
};
inline World*& current()
{
    static World* w = new World;
    return w;
}
inline int& rankOfThread()
{
    static thread_local int r = 0;
    return r;
}
inline World& world() { return *current(); }

inline uint64_t next()
{
    auto& r = world().rng;
    r += 0x9E3779B97F4A7C15ull;
    uint64_t z = r;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline size_t below(size_t n) { return n <= 1 ? 0 : size_t(next() % n); }

inline void pass(std::unique_lock<std::mutex>& l, bool ending)
{
    auto& w = world();
    std::vector<int> who;
    for (size_t r = 0; r < w.alive.size(); r++)
        if (w.alive[r]) who.push_back(int(r));
    if (who.empty())
    {
        w.cv.notify_all();
        return;
    }
    int me = rankOfThread();
    int to = !ending && below(3) == 0 ? me : who[below(who.size())];
    if (to == me && !ending) return;
    w.switches++;
    w.current = to;
    w.cv.notify_all();
    if (!ending) w.cv.wait(l, [&] { return w.dead || w.current == me; });
}

// one rank's turn may end here, and the network may do something
inline void step()
{
    auto& w = world();
    std::unique_lock<std::mutex> l(w.m);
    if (w.dead) throw Stuck("another rank has failed");
    if (++w.idle > w.limit)
    {
        w.dead = true;
        w.cv.notify_all();
        throw Stuck("no rank gets anywhere: " + std::to_string(w.sends.size()) + " sends and " + std::to_string(w.recvs.size()) + " receives without a partner");
    }
    for (size_t k = w.wire.size(); k-- > 0;)
    {
        if (below(2)) continue;
        auto* s = w.wire[k];
        auto* r = s->match;
        const char* from = s->eager ? s->copy.data() : s->data;
        if (s->bytes) std::memcpy(r->data, from, s->bytes);
        r->done = s->done = r->delivered = s->delivered = true;
        r->status = {s->from, s->tag, 0, s->bytes};
        w.wire.erase(w.wire.begin() + long(k));
        w.messages++;
        w.idle = 0;
    }
    pass(l, false);
    if (w.dead) throw Stuck("another rank has failed");
}

inline std::string describe(const StandinRequest& r)
{
    return std::string(r.send ? "send" : "receive") + " of " + std::to_string(r.bytes) + " bytes from " + std::to_string(r.from) + " to " + std::to_string(r.to) + " with tag " + std::to_string(r.tag);
}
inline int rankIn(MPI_Comm c)
{
    if (!c) throw Misuse("null communicator");
    for (size_t k = 0; k < c->world.size(); k++)
        if (c->world[k] == rankOfThread()) return int(k);
    throw Misuse("not a member of the communicator");
}
inline void post(StandinRequest* r)
{
    auto& w = world();
    auto fits = [&](StandinRequest* s, StandinRequest* v)
    {
        return s->comm == v->comm && s->to == v->to && (v->from == MPI_ANY_SOURCE || s->from == v->from)
            && (v->tag == MPI_ANY_TAG || s->tag == v->tag);
    };
    auto& others = r->send ? w.recvs : w.sends;
    for (auto it = others.begin(); it != others.end(); ++it)
    {
        auto *s = r->send ? r : *it, *v = r->send ? *it : r;
        if (!fits(s, v)) continue;
        if (s->bytes > v->bytes) throw Misuse("message truncated: " + describe(*s) + ", " + describe(*v));
        s->match = v;
        v->match = s;
        others.erase(it);
        w.wire.push_back(s);
        return;
    }
    (r->send ? w.sends : w.recvs).push_back(r);
}
inline StandinRequest* make(bool send, const void* buf, int count, MPI_Datatype t, int other, int tag, MPI_Comm c)
{
    auto& w = world();
    if (count < 0 || !t) throw Misuse("negative count or null type");
    if (send ? tag < 0 || other < 0 : tag < -1 || other < -1) throw Misuse("negative tag or rank");
    int me = rankIn(c);
    if (other >= int(c->world.size())) throw Misuse("rank " + std::to_string(other) + " in a communicator of " + std::to_string(c->world.size()));
    if (tag > 32767) throw Misuse("tag " + std::to_string(tag) + " is larger than what every implementation takes");
    w.requests.push_back(std::make_unique<StandinRequest>());
    auto* r = w.requests.back().get();
    r->send = send;
    r->comm = c->id;
    r->from = send ? me : other;
    r->to = send ? other : me;
    r->tag = tag;
    r->bytes = size_t(count) * t->size;
    r->data = static_cast<char*>(const_cast<void*>(buf));
    if (send && below(2))
    {
        r->eager = r->done = true;
        r->copy.assign(r->data, r->data + r->bytes);
        w.eager++;
    }
    w.idle = 0;
    post(r);
    return r;
}
inline bool complete(MPI_Request* q, MPI_Status* st)
{
    auto* r = *q;
    if (!r)
    {
        if (st) *st = {};
        return true;
    }
    bool known = false;
    for (auto& x : world().requests) known |= x.get() == r;
    if (!known || r->released) throw Misuse("a request that was never made, or is complete already");
    if (!r->done) return false;
    if (st) *st = r->status;
    r->released = true;
    *q = nullptr;
    world().idle = 0;
    return true;
}

// requests that were never completed by their owner, and messages nobody received
inline std::string leftover()
{
    auto& w = world();
    for (auto& r : w.requests)
    {
        if (!r->delivered) return "never delivered: " + describe(*r);
        if (!r->released) return "never completed: " + describe(*r);
    }
    for (auto& [k, c] : w.collectives)
        if (c.taken) return "a collective operation only some ranks took part in: " + c.what;
    return {};
}

inline MPI_Comm comm(const std::vector<int>& members)
{
    auto& w = world();
    w.comms.push_back(std::make_unique<StandinComm>(StandinComm {members, int(w.comms.size()) + 2}));
    return w.comms.back().get();
}

// runs f(rank) on every rank; the first failure that is not a consequence of another one is thrown
template<typename F>
void run(int size, uint64_t seed, F f)
{
    auto& w = world();
    {
        std::unique_lock<std::mutex> l(w.m);
        w.alive.assign(size_t(size), true);
        w.current = int(seed % uint64_t(size));
        w.rng = seed;
    }
    std::vector<std::exception_ptr> failed(static_cast<size_t>(size));
    std::exception_ptr first;
    std::vector<std::thread> ts;
    for (int r = 0; r < size; r++)
        ts.emplace_back(
            [&, r]
            {
                rankOfThread() = r;
                {
                    std::unique_lock<std::mutex> l(w.m);
                    w.cv.wait(l, [&] { return w.dead || w.current == r; });
                }
                try
                {
                    if (!w.dead) f(r);
                }
                catch (...)
                {
                    std::unique_lock<std::mutex> l(w.m);
                    if (!first) first = std::current_exception();
                    w.dead = true;
                }
                std::unique_lock<std::mutex> l(w.m);
                w.alive[size_t(r)] = false;
                w.idle = 0;
                pass(l, true);
            }
        );
    for (auto& t : ts) t.join();
    rankOfThread() = 0;
    if (first) std::rethrow_exception(first);
}

// a world for one case
struct Fresh
{
    explicit Fresh(int size) : before(current())
    {
        current() = &w;
        w.world.world.clear();
        for (int r = 0; r < size; r++) w.world.world.push_back(r);
        w.alive.assign(size_t(size), true);
    }
    ~Fresh() { current() = before; }
    World w;
    World* before;
};

// ---- reductions
template<typename T>
bool apply(MPI_Op op, T& a, const T& b)
{
    switch (op)
    {
    case MPI_MAX:
        if (a < b) a = b;
        return true;
    case MPI_MIN:
        if (b < a) a = b;
        return true;
    case MPI_SUM:
        a = T(a + b);
        return true;
    case MPI_PROD:
        a = T(a * b);
        return true;
    default:
        break;
    }
    if constexpr (std::is_integral_v<T>)
    {
        switch (op)
        {
        case MPI_LAND:
            a = T(a && b);
            return true;
        case MPI_LOR:
            a = T(a || b);
            return true;
        case MPI_LXOR:
            a = T(!a != !b);
            return true;
        case MPI_BAND:
            a = T(a & b);
            return true;
        case MPI_BOR:
            a = T(a | b);
            return true;
        case MPI_BXOR:
            a = T(a ^ b);
            return true;
        default:
            break;
        }
    }
    return false;
}
template<typename T>
bool applyComplex(MPI_Op op, std::complex<T>& a, const std::complex<T>& b)
{
    if (op == MPI_SUM) a += b;
    else if (op == MPI_PROD) a *= b;
    else return false;
    return true;
}
inline bool applyBool(MPI_Op op, bool& a, const bool& b)
{
    if (op == MPI_LAND) a = a && b;
    else if (op == MPI_LOR) a = a || b;
    else if (op == MPI_LXOR) a = a != b;
    else return false;
    return true;
}
inline void combine(MPI_Op op, MPI_Datatype t, std::vector<char>& a, const std::vector<char>& b)
{
    bool ok = true;
    auto each = [&](auto zero, auto f)
    {
        using T = decltype(zero);
        for (size_t k = 0; k + sizeof(T) <= a.size(); k += sizeof(T))
        {
            T x, y;
            std::memcpy(&x, a.data() + k, sizeof x);
            std::memcpy(&y, b.data() + k, sizeof y);
            ok = ok && f(op, x, y);
            std::memcpy(a.data() + k, &x, sizeof x);
        }
    };
    auto plain = [&](auto zero) { each(zero, [](MPI_Op o, auto& x, const auto& y) { return apply(o, x, y); }); };
    auto cplx = [&](auto zero) { each(zero, [](MPI_Op o, auto& x, const auto& y) { return applyComplex(o, x, y); }); };
    std::string n = t->name;
    switch (t->kind)
    {
    case StandinKind::SIGNED:
        if (n == "CHAR" || n == "WCHAR") ok = false; // not arithmetic in MPI
        else if (t->size == 1) plain(int8_t {});
        else if (t->size == 2) plain(int16_t {});
        else if (t->size == 4) plain(int32_t {});
        else plain(int64_t {});
        break;
    case StandinKind::UNSIGNED:
        if (t->size == 1) plain(uint8_t {});
        else if (t->size == 2) plain(uint16_t {});
        else if (t->size == 4) plain(uint32_t {});
        else plain(uint64_t {});
        break;
    case StandinKind::FLOAT:
        if (t->size == sizeof(float)) plain(float {});
        else if (t->size == sizeof(double)) plain(double {});
        else plain(0.0L);
        break;
    case StandinKind::COMPLEX:
        if (t->size == sizeof(std::complex<float>)) cplx(std::complex<float> {});
        else if (t->size == sizeof(std::complex<double>)) cplx(std::complex<double> {});
        else cplx(std::complex<long double> {});
        break;
    case StandinKind::LOGICAL:
        each(bool {}, [](MPI_Op o, bool& x, const bool& y) { return applyBool(o, x, y); });
        break;
    default:
        ok = false;
    }
    if (!ok) throw Misuse("operation " + std::to_string(int(op)) + " is not defined for " + n);
}

// every member deposits `mine`; gives what all members deposited once they all have
inline std::vector<std::vector<char>> gather(MPI_Comm c, const std::string& what, const std::vector<char>& mine)
{
    auto& w = world();
    int me = rankIn(c);
    long n = w.calls[{c->id, me}]++;
    auto key = std::make_pair(c->id, n);
    {
        auto& col = w.collectives[key];
        if (col.in.empty()) col.what = what;
        else if (col.what != what) throw Misuse("ranks disagree about a collective operation: " + col.what + ", " + what);
        col.in[me] = mine;
        col.taken++;
    }
    w.idle = 0;
    do step();
    while (w.collectives[key].in.size() < c->world.size());
    auto& col = w.collectives[key];
    std::vector<std::vector<char>> all;
    for (size_t k = 0; k < c->world.size(); k++) all.push_back(col.in[int(k)]);
    if (++col.taken == 2 * int(c->world.size())) col.taken = 0;
    return all;
}
inline std::vector<char> bytes(const void* p, size_t n)
{
    auto* c = static_cast<const char*>(p);
    return std::vector<char>(c, c + n);
}
} // namespace standin_mpi

#define MPI_COMM_WORLD (&standin_mpi::world().world)
#define MPI_COMM_SELF (&standin_mpi::world().self)

inline int MPI_Init(int*, char***)
{
    standin_mpi::world().initialized = true;
    return MPI_SUCCESS;
}
inline int MPI_Init_thread(int*, char***, int required, int* provided)
{
    *provided = required;
    return MPI_Init(nullptr, nullptr);
}
inline int MPI_Finalize()
{
    standin_mpi::world().finalized = true;
    return MPI_SUCCESS;
}
inline int MPI_Initialized(int* f)
{
    *f = standin_mpi::world().initialized;
    return MPI_SUCCESS;
}
inline int MPI_Finalized(int* f)
{
    *f = standin_mpi::world().finalized;
    return MPI_SUCCESS;
}
inline int MPI_Abort(MPI_Comm, int code)
{
    std::fflush(nullptr);
    _exit(code ? code : 1);
}
inline int MPI_Comm_rank(MPI_Comm c, int* r)
{
    *r = standin_mpi::rankIn(c);
    return MPI_SUCCESS;
}
inline int MPI_Comm_size(MPI_Comm c, int* n)
{
    if (!c) throw standin_mpi::Misuse("null communicator");
    *n = int(c->world.size());
    return MPI_SUCCESS;
}
inline int MPI_Type_size(MPI_Datatype t, int* n)
{
    *n = int(t->size);
    return MPI_SUCCESS;
}
inline int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n)
{
    *n = s->bytes % t->size ? MPI_UNDEFINED : int(s->bytes / t->size);
    return MPI_SUCCESS;
}
inline int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* r)
{
    standin_mpi::step();
    *r = standin_mpi::make(true, b, n, t, to, tag, c);
    standin_mpi::step();
    return MPI_SUCCESS;
}
inline int MPI_Issend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* r) { return MPI_Isend(b, n, t, to, tag, c, r); }
inline int MPI_Irecv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request* r)
{
    standin_mpi::step();
    *r = standin_mpi::make(false, b, n, t, from, tag, c);
    standin_mpi::step();
    return MPI_SUCCESS;
}
inline int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s)
{
    standin_mpi::step();
    *flag = standin_mpi::complete(r, s);
    return MPI_SUCCESS;
}
inline int MPI_Wait(MPI_Request* r, MPI_Status* s)
{
    do standin_mpi::step();
    while (!standin_mpi::complete(r, s));
    return MPI_SUCCESS;
}
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s)
{
    for (int k = 0; k < n; k++) MPI_Wait(r + k, s ? s + k : nullptr);
    return MPI_SUCCESS;
}
inline int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* s)
{
    standin_mpi::step();
    *flag = 1;
    for (int k = 0; k < n; k++)
        if (r[k] && !r[k]->done) *flag = 0;
    if (*flag)
        for (int k = 0; k < n; k++) standin_mpi::complete(r + k, s ? s + k : nullptr);
    return MPI_SUCCESS;
}
inline int MPI_Testany(int n, MPI_Request* r, int* index, int* flag, MPI_Status* s)
{
    standin_mpi::step();
    *flag = 1;
    *index = MPI_UNDEFINED;
    for (int k = 0; k < n; k++)
        if (r[k])
        {
            *flag = 0;
            if (standin_mpi::complete(r + k, s))
            {
                *flag = 1;
                *index = k;
                return MPI_SUCCESS;
            }
        }
    return MPI_SUCCESS;
}
inline int MPI_Waitany(int n, MPI_Request* r, int* index, MPI_Status* s)
{
    int flag = 0;
    while (!flag) MPI_Testany(n, r, index, &flag, s);
    return MPI_SUCCESS;
}
inline int MPI_Request_get_status(MPI_Request r, int* flag, MPI_Status* s)
{
    standin_mpi::step();
    *flag = !r || r->done;
    if (s && r) *s = r->status;
    return MPI_SUCCESS;
}
inline int MPI_Send(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c)
{
    MPI_Request r;
    MPI_Isend(b, n, t, to, tag, c, &r);
    return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
inline int MPI_Recv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status* s)
{
    MPI_Request r;
    MPI_Irecv(b, n, t, from, tag, c, &r);
    return MPI_Wait(&r, s);
}
inline int MPI_Barrier(MPI_Comm c)
{
    standin_mpi::gather(c, "barrier", {});
    return MPI_SUCCESS;
}
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    if (n < 0 || !t || op == MPI_OP_NULL) throw standin_mpi::Misuse("reduction without type, operation or length");
    auto mine = standin_mpi::bytes(in == MPI_IN_PLACE ? out : in, size_t(n) * t->size);
    auto all = standin_mpi::gather(c, std::string("allreduce of ") + std::to_string(n) + " " + t->name + " with " + std::to_string(int(op)), mine);
    // the order of the ranks is the implementation's
    for (size_t k = all.size(); k > 1; k--) std::swap(all[k - 1], all[standin_mpi::below(k)]);
    auto r = all[0];
    if (all.size() == 1) standin_mpi::combine(op, t, mine, mine); // for the check of type and operation only
    for (size_t k = 1; k < all.size(); k++) standin_mpi::combine(op, t, r, all[k]);
    if (!r.empty()) std::memcpy(out, r.data(), r.size());
    return MPI_SUCCESS;
}
inline int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    std::vector<char> r(size_t(n) * t->size);
    bool me = standin_mpi::rankIn(c) == root;
    MPI_Allreduce(in == MPI_IN_PLACE ? out : in, r.data(), n, t, op, c);
    if (me && !r.empty()) std::memcpy(out, r.data(), r.size());
    return MPI_SUCCESS;
}
inline int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    auto all = standin_mpi::gather(c, "broadcast of " + std::to_string(n) + " " + t->name + " from " + std::to_string(root), standin_mpi::bytes(b, size_t(n) * t->size));
    if (n) std::memcpy(b, all.at(size_t(root)).data(), all.at(size_t(root)).size());
    return MPI_SUCCESS;
}
inline int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm c)
{
    size_t one = size_t(n) * t->size;
    auto* o = static_cast<char*>(out);
    auto mine = standin_mpi::bytes(in == MPI_IN_PLACE ? o + one * size_t(standin_mpi::rankIn(c)) : in, one);
    auto all = standin_mpi::gather(c, "allgather", mine);
    for (size_t k = 0; k < all.size(); k++)
        if (one) std::memcpy(o + k * one, all[k].data(), one);
    return MPI_SUCCESS;
}
inline int MPI_Error_string(int e, char* s, int* n)
{
    *n = std::snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e);
    return MPI_SUCCESS;
}
inline double MPI_Wtime() { return 0.0; }
