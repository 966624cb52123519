// C29: buffers that exchange messages between ranks.
#include "ranks.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
using namespace num;
namespace mpi = NeoFOAM::mpi;

// the types that are exchanged
template<typename F>
auto withType(size_t k, F f)
{
    switch (k)
    {
    case 0: return f(char {});
    case 1: return f(int {});
    case 2: return f(double {});
    case 3: return f(float {});
    case 4: return f(Vector {});
    case 5: return f(short {});
    default: return f(std::int64_t {});
    }
}
constexpr size_t TYPES = 7;

// what item `i` of the message from rank r to rank s says
template<typename T>
T word(size_t item, size_t round, size_t r, size_t s, size_t i)
{
    size_t h = ((((item * 31 + round) * 31 + r) * 31 + s) * 31 + i) * 2654435761u;
    if constexpr (std::is_same_v<T, Vector>) return Vector(double(h % 1000), double((h >> 8) % 1000), double((h >> 16) % 1000));
    else return T((h >> 4) % 120 + 1);
}
template<typename T>
bool equal(const T& a, const T& b)
{
    return same(a, b);
}
inline bool equal(const std::int64_t& a, const std::int64_t& b) { return a == b; }

struct Round
{
    std::string name;
    size_t type;
    std::vector<std::vector<size_t>> count; // from, to
    size_t waiting;                         // how the end is awaited
    size_t polls;
};
struct Item
{
    bool full;
    std::vector<Round> rounds;
};

static std::vector<std::vector<size_t>> counts(pbt::Gen& g, size_t n)
{
    std::vector<std::vector<size_t>> c(n, std::vector<size_t>(n));
    for (auto& row : c)
        for (auto& x : row) x = g.chance(1, 4) ? 0 : g.chance(1, 8) ? g.size(0, 60) : g.size(0, 4);
    return c;
}

PBT(exchanges, 40000, 800000, "Two ranks or more, and messages of two buffers are under way at the same time or a buffer is used twice.")
{
    Ranks ranks(g, 4);
    size_t n = ranks.size(), items = g.size(1, 3);
    std::vector<Item> plan(items);
    constexpr size_t MOST = 4;
    for (auto& it : plan)
    {
        it.full = g.boolean();
        auto c = counts(g, n);
        for (size_t r = 0; r < MOST; r++)
        {
            // a full-duplex buffer keeps its numbers of elements, a half-duplex one may be given others
            if (!it.full && g.boolean()) c = counts(g, n);
            it.rounds.push_back({g.pick(NAMES), g.index(TYPES), c, g.index(3), g.size(0, 3)});
        }
    }
    auto conflict = [&](size_t a, size_t ra, size_t b, size_t rb) { return a == b || plan[a].rounds[ra % MOST].name == plan[b].rounds[rb % MOST].name; };
    auto agreed = agreedOrder(g, items, g.size(2, 2 * MOST * items), conflict);
    while (!agreed.empty() && std::any_of(agreed.begin(), agreed.end(), [](auto& e) { return e.round >= MOST; }))
        agreed.erase(std::find_if(agreed.begin(), agreed.end(), [](auto& e) { return e.round >= MOST; }));
    std::vector<std::vector<Event>> own;
    for (size_t r = 0; r < n; r++) own.push_back(ownOrder(g, agreed, conflict));
    std::string s;
    size_t active = 0, twice = 0;
    for (const auto& e : agreed)
    {
        s += (e.start ? " start " : " end ") + std::to_string(e.item);
        active += e.start ? 1 : size_t(-1);
        if (active > 1 || e.round > 0) twice++;
    }
    g.note("order:", s);
    if (n > 1 && twice) g.nontrivial();

    std::vector<std::map<std::pair<size_t, size_t>, bool>> started(n);
    ranks.run(
        [&](size_t me)
        {
            mpi::MPIEnvironment env(ranks.comm);
            PBT_CHECK(env.rank() == me && env.sizeRank() == n && env.comm() == ranks.comm, "rank ", env.rank(), " of ", env.sizeRank(), ", expected ", me, " of ", n);
            struct Held
            {
                std::optional<mpi::FullDuplexCommBuffer> full;
                std::optional<mpi::HalfDuplexCommBuffer> send, receive;
            };
            std::vector<Held> held(items);
            auto out = [&](size_t i, size_t round)
            {
                std::vector<size_t> c;
                for (size_t to = 0; to < n; to++) c.push_back(plan[i].rounds[round].count[me][to]);
                return c;
            };
            auto in = [&](size_t i, size_t round)
            {
                std::vector<size_t> c;
                for (size_t from = 0; from < n; from++) c.push_back(plan[i].rounds[round].count[from][me]);
                return c;
            };
            for (size_t i = 0; i < items; i++)
            {
                if (plan[i].full) held[i].full.emplace(env, out(i, 0), in(i, 0));
                else
                {
                    // with the numbers at once, or later
                    if (i % 2)
                    {
                        held[i].send.emplace(env, out(i, 0));
                        held[i].receive.emplace(env, in(i, 0));
                    }
                    else
                    {
                        held[i].send.emplace();
                        held[i].receive.emplace();
                        held[i].send->setMPIEnvironment(env);
                        held[i].receive->setMPIEnvironment(env);
                    }
                }
            }
            auto received = [&](size_t i, size_t round)
            {
                const auto& R = plan[i].rounds[round];
                withType(R.type,
                    [&](auto zero)
                    {
                        using T = decltype(zero);
                        for (size_t from = 0; from < n; from++)
                        {
                            auto got = plan[i].full ? std::as_const(*held[i].full).template getReceive<T>(from) : std::as_const(*held[i].receive).template get<T>(from);
                            PBT_CHECK(got.size() == R.count[from][me], "rank ", me, ": ", got.size(), " elements from ", from, ", expected ", R.count[from][me]);
                            for (size_t k = 0; k < got.size(); k++)
                                PBT_CHECK(equal(T(got[k]), word<T>(i, round, from, me, k)), "rank ", me, ": element ", k, " of the message from ", from, " under '", R.name, "' is not what was sent");
                        }
                        for (size_t to = 0; to < n; to++)
                        {
                            auto sent = plan[i].full ? std::as_const(*held[i].full).template getSend<T>(to) : std::as_const(*held[i].send).template get<T>(to);
                            PBT_CHECK(sent.size() == R.count[me][to], "rank ", me, ": ", sent.size(), " elements for ", to, ", expected ", R.count[me][to]);
                            for (size_t k = 0; k < sent.size(); k++)
                                PBT_CHECK(equal(T(sent[k]), word<T>(i, round, me, to, k)), "rank ", me, ": element ", k, " of the message for ", to, " has changed");
                        }
                    });
            };
            // complete means: the others have all started, and everything is here
            auto mustBeHere = [&](size_t i, size_t round)
            {
                for (size_t from = 0; from < n; from++)
                    if (plan[i].rounds[round].count[from][me]) PBT_CHECK((started[from][{i, round}]), "rank ", me, ": complete before rank ", from, " has started");
                received(i, round);
            };
            for (const auto& e : own[me])
            {
                auto& h = held[e.item];
                const auto& R = plan[e.item].rounds[e.round];
                if (e.start)
                {
                    withType(R.type,
                        [&](auto zero)
                        {
                            using T = decltype(zero);
                            if (h.full)
                            {
                                PBT_CHECK(!h.full->isCommInit(), "rank ", me, ": in use before it is started");
                                h.full->template initComm<T>(R.name);
                                PBT_CHECK(h.full->isCommInit(), "rank ", me, ": not in use after it is started");
                            }
                            else
                            {
                                // elements of another type are so many elements of this type
                                if (e.round % 2) h.send->template setCommRankSize<T>(out(e.item, e.round));
                                else h.send->template setCommRankSize<double>(out(e.item, e.round));
                                h.receive->template setCommRankSize<char>(in(e.item, e.round));
                                PBT_CHECK(!h.send->isCommInit() && !h.receive->isCommInit(), "rank ", me, ": in use before it is started");
                                h.send->template initComm<T>(R.name);
                                h.receive->template initComm<T>(R.name);
                                PBT_CHECK(h.send->isCommInit() && h.receive->isCommInit() && h.send->getCommName() == R.name && h.receive->getCommName() == R.name, "rank ", me, ": named ", h.send->getCommName());
                            }
                            for (size_t to = 0; to < n; to++)
                            {
                                auto data = h.full ? h.full->template getSend<T>(to) : h.send->template get<T>(to);
                                PBT_CHECK(data.size() == R.count[me][to], "rank ", me, ": room for ", data.size(), " elements for ", to, ", expected ", R.count[me][to]);
                                for (size_t k = 0; k < data.size(); k++) data[k] = word<T>(e.item, e.round, me, to, k);
                                auto room = h.full ? h.full->template getReceive<T>(to) : h.receive->template get<T>(to);
                                PBT_CHECK(room.size() == R.count[to][me], "rank ", me, ": room for ", room.size(), " elements from ", to, ", expected ", R.count[to][me]);
                                for (auto& x : room) x = T {};
                            }
                        });
                    started[me][{e.item, e.round}] = true;
                    if (h.full) h.full->startComm();
                    else if (R.waiting)
                    {
                        h.send->send();
                        h.receive->receive();
                    }
                    else
                    {
                        h.receive->receive();
                        h.send->send();
                    }
                    for (size_t k = 0; k < R.polls; k++)
                    {
                        bool done = h.full ? h.full->isComplete() : h.receive->isComplete();
                        if (done) mustBeHere(e.item, e.round);
                    }
                }
                else
                {
                    if (h.full)
                    {
                        if (R.waiting == 1)
                            while (!h.full->isComplete()) {}
                        else h.full->waitComplete();
                        mustBeHere(e.item, e.round);
                        PBT_CHECK(h.full->isComplete(), "rank ", me, ": not complete any more");
                        h.full->finaliseComm();
                        PBT_CHECK(!h.full->isCommInit(), "rank ", me, ": in use after it was finished");
                    }
                    else
                    {
                        if (R.waiting == 1)
                            while (!h.receive->isComplete()) {}
                        else h.receive->waitComplete();
                        mustBeHere(e.item, e.round);
                        h.send->waitComplete();
                        mustBeHere(e.item, e.round);
                        PBT_CHECK(h.receive->isComplete() && h.send->isComplete(), "rank ", me, ": not complete any more");
                        h.receive->finaliseComm();
                        h.send->finaliseComm();
                        PBT_CHECK(!h.send->isCommInit() && !h.receive->isCommInit() && h.send->getCommName() == "unassigned", "rank ", me, ": in use after it was finished");
                    }
                }
            }
        });
    g.label(std::to_string(n) + " ranks");
}
