// C30: fields shared between ranks.
#include "ranks.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"
using namespace num;
namespace mpi = NeoFOAM::mpi;
using NeoFOAM::Communicator;

// the map of one set of exchanges: what rank a sends to rank b, place by place
struct Map
{
    std::vector<size_t> length;                        // of the fields, by rank
    std::vector<std::vector<std::vector<size_t>>> from; // [a][b]: places in a's field
    std::vector<std::vector<std::vector<size_t>>> to;   // [a][b]: places in b's field, each at most once
};

static Map map(pbt::Gen& g, size_t n)
{
    Map m;
    for (size_t r = 0; r < n; r++) m.length.push_back(g.size(1, 14));
    m.from.assign(n, std::vector<std::vector<size_t>>(n));
    m.to = m.from;
    for (size_t b = 0; b < n; b++)
    {
        auto places = g.permutation(m.length[b]);
        size_t used = 0;
        for (size_t a = 0; a < n; a++)
        {
            size_t k = g.chance(1, 4) ? 0 : g.size(0, std::min<size_t>(5, places.size() - used));
            for (size_t i = 0; i < k; i++)
            {
                m.to[a][b].push_back(places[used++]);
                m.from[a][b].push_back(g.index(m.length[a]));
            }
        }
    }
    return m;
}

struct Item
{
    std::string name;
    size_t field; // of those of this type
    size_t type;
    size_t waiting, polls;
};

// the fields of one rank
struct Fields
{
    std::vector<Field<double>> d;
    std::vector<Field<int>> i;
    std::vector<Field<Vector>> v;
    std::vector<Field<float>> f;
};
template<typename F>
auto withField(Fields& fs, const Item& it, F f)
{
    switch (it.type)
    {
    case 0: return f(fs.d[it.field]);
    case 1: return f(fs.i[it.field]);
    case 2: return f(fs.v[it.field]);
    default: return f(fs.f[it.field]);
    }
}
template<typename T>
std::vector<double> numbers(const Field<T>& f)
{
    std::vector<double> v;
    for (auto& x : host(f))
    {
        if constexpr (std::is_same_v<T, Vector>)
            for (size_t k = 0; k < 3; k++) v.push_back(x[k]);
        else v.push_back(double(x));
    }
    return v;
}

static void exchange(pbt::Gen& g)
{
    Ranks ranks(g, 4);
    size_t n = ranks.size();
    auto m = map(g, n);
    size_t items = g.size(1, 5);
    std::vector<Item> plan;
    auto names = g.permutation(NAMES.size());
    for (size_t k = 0; k < items; k++) plan.push_back({NAMES[names[k]], g.index(2), g.index(4), g.index(3), g.size(0, 3)});
    // the same field under two names at a time: what comes in last stays, so the places would depend on the order
    auto conflict = [&](size_t a, size_t, size_t b, size_t) { return a == b || (plan[a].type == plan[b].type && plan[a].field == plan[b].field); };
    auto agreed = agreedOrder(g, items, g.size(2, 16), conflict);
    std::vector<std::vector<Event>> own;
    for (size_t r = 0; r < n; r++) own.push_back(ownOrder(g, agreed, conflict));
    std::string s;
    size_t active = 0, most = 0, rounds = 0;
    for (const auto& e : agreed)
    {
        s += (e.start ? " start " : " end ") + plan[e.item].name;
        active += e.start ? 1 : size_t(-1);
        most = std::max(most, active);
        rounds = std::max(rounds, e.round + 1);
    }
    size_t moved = 0;
    for (auto& row : m.from)
        for (auto& c : row) moved += c.size();
    g.note("order:", s, "; ", moved, " values a time");
    if (n > 1 && moved && (most > 1 || rounds > 1)) g.nontrivial();
    g.label(std::to_string(most) + " at a time");
    size_t exec = g.index(3);
    auto seeds = g.below(1u << 20);
    bool copied = g.boolean();

    // what a rank gave away: [item, round, from, to]
    std::map<std::array<size_t, 4>, std::vector<double>> given;
    ranks.run(
        [&](size_t me)
        {
            mpi::MPIEnvironment env(ranks.comm);
            NeoFOAM::CommMap send(n), receive(n);
            for (size_t r = 0; r < n; r++)
            {
                for (auto p : m.from[me][r]) send[r].push_back({label(p)});
                for (auto p : m.to[r][me]) receive[r].push_back({label(p)});
            }
            Communicator c;
            if (copied)
            {
                Communicator first(env, send, receive);
                c = first;
            }
            else c = Communicator(env, send, receive);
            Executor e = executor(exec);
            Fields fs;
            uint64_t seed = seeds + me;
            auto random = [&]
            {
                seed = seed * 6364136223846793005ull + 1442695040888963407ull;
                return int(seed >> 40) % 1000 - 500;
            };
            auto fill = [&](auto& f)
            {
                using T = std::remove_reference_t<decltype(f.data()[0])>;
                auto all = everywhere();
                for (size_t k = 0; k < f.size(); k++)
                {
                    if constexpr (std::is_same_v<T, Vector>) f.data()[k] = Vector(random(), random(), random());
                    else f.data()[k] = T(random());
                }
            };
            for (size_t k = 0; k < 2; k++)
            {
                fs.d.emplace_back(e, m.length[me]);
                fs.i.emplace_back(e, m.length[me]);
                fs.v.emplace_back(e, m.length[me]);
                fs.f.emplace_back(e, m.length[me]);
                fill(fs.d[k]);
                fill(fs.i[k]);
                fill(fs.v[k]);
                fill(fs.f[k]);
            }
            auto allStarted = [&](size_t item, size_t round)
            {
                for (size_t r = 0; r < n; r++)
                    if (!m.to[r][me].empty() && !given.count({item, round, r, me})) return false;
                return true;
            };
            for (const auto& ev : own[me])
            {
                const auto& it = plan[ev.item];
                withField(fs, it,
                    [&](auto& f)
                    {
                        size_t w = numbers(f).size() / f.size();
                        if (ev.start)
                        {
                            if (random() % 3) fill(f);
                            auto before = numbers(f);
                            for (size_t r = 0; r < n; r++)
                            {
                                auto& v = given[{ev.item, ev.round, me, r}];
                                for (auto p : m.from[me][r])
                                    for (size_t k = 0; k < w; k++) v.push_back(before[p * w + k]);
                            }
                            c.startComm(f, it.name);
                            PBT_CHECK(numbers(f) == before, "rank ", me, ": starting '", it.name, "' has changed the field");
                            for (size_t k = 0; k < it.polls; k++)
                                if (c.isComplete(it.name)) PBT_CHECK(allStarted(ev.item, ev.round), "rank ", me, ": '", it.name, "' is complete before the others have started");
                            // what goes out is what was there at the start
                            if (random() % 2) fill(f);
                        }
                        else
                        {
                            if (it.waiting == 1)
                                while (!c.isComplete(it.name)) {}
                            auto want = numbers(f);
                            c.finaliseComm(f, it.name);
                            PBT_CHECK(allStarted(ev.item, ev.round), "rank ", me, ": '", it.name, "' is finished before the others have started");
                            for (size_t r = 0; r < n; r++)
                            {
                                auto& v = given[{ev.item, ev.round, r, me}];
                                for (size_t k = 0; k < m.to[r][me].size(); k++)
                                    for (size_t q = 0; q < w; q++) want[m.to[r][me][k] * w + q] = v[k * w + q];
                            }
                            auto got = numbers(f);
                            for (size_t k = 0; k < got.size(); k++)
                                PBT_CHECK(got[k] == want[k], "rank ", me, ", after '", it.name, "': place ", k / w, " holds ", got[k], ", expected ", want[k]);
                        }
                    });
            }
        });
}

PBT(fields_between_ranks, 20000, 400000, "Two ranks or more exchange values under several names at a time, or again under the same name.") { exchange(g); }

PBT_KNOWN(names_with_the_same_tag_mix_their_messages)
{
    // the tags of these names are the same (16 bits of a hash); rank 0 starts one before the other, rank 1 the other before the one
    const std::string a = "solver.cpp:47", b = "solver.cpp:95";
    std::vector<double> gotA(2), gotB(2);
    for (uint64_t seed = 0; seed < 4; seed++)
    {
        standin_mpi::Fresh world(2);
        standin_mpi::run(2, seed,
            [&](int rank)
            {
                size_t me = size_t(rank), other = 1 - me;
                mpi::MPIEnvironment env;
                NeoFOAM::CommMap send(2), receive(2);
                send[other] = {{0}};
                receive[other] = {{1}};
                Communicator c(env, send, receive);
                Field<double> fa(NeoFOAM::SerialExecutor {}, 2), fb(NeoFOAM::SerialExecutor {}, 2);
                fa.data()[0] = 1.0;
                fb.data()[0] = 2.0;
                c.startComm(me ? fb : fa, me ? b : a);
                c.startComm(me ? fa : fb, me ? a : b);
                c.finaliseComm(fa, a);
                c.finaliseComm(fb, b);
                gotA[me] = fa.data()[1];
                gotB[me] = fb.data()[1];
            });
        for (size_t r = 0; r < 2; r++)
            if (gotA[r] != 1.0 || gotB[r] != 2.0)
            {
                what = "'" + a + "' and '" + b + "' have the same tag: started in different orders on two ranks, rank " + std::to_string(r) + " gets " + str(gotA[r]) + " for 1 and "
                    + str(gotB[r]) + " for 2";
                return true;
            }
    }
    return false;
}
