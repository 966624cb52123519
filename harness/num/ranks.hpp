// Ranks, communicators and interleavings for the harnesses of the communication between ranks (stand-in for MPI).
#pragma once
#include <mpi.h>
#include <mutex>
#include <optional>
#include "num.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"

namespace num
{
// names with different tags at the pinned commit (16 bits of a hash); what happens to names with the same tag is a known finding
inline const std::vector<std::string> NAMES {"foo", "div.cpp:71", "laplacian.cpp:112", "p", "U", "", "phi", "solver.cpp:9", "T", "T_0", "nut", "k",
    "a rather long name, with blanks and more than a few characters in it", "turbulence/kEpsilon.cpp:1024", "x", "y"};

struct Event
{
    size_t item;
    bool start;
    size_t round = 0;
};

// The order in which all ranks agree: every item is started and finished some times.  conflict(a, b): b must not start before a is finished.
template<typename Conflict>
std::vector<Event> agreedOrder(pbt::Gen& g, size_t items, size_t events, Conflict conflict)
{
    std::vector<Event> order;
    std::vector<char> active(items);
    std::vector<size_t> rounds(items);
    for (size_t k = 0; k < events; k++)
    {
        size_t i = g.index(items);
        if (active[i]) order.push_back({i, false, rounds[i]++});
        else
        {
            bool clash = false;
            for (size_t j = 0; j < items; j++) clash |= active[j] && conflict(j, rounds[j], i, rounds[i]);
            if (clash) continue;
            order.push_back({i, true, rounds[i]});
        }
        active[i] = !active[i];
    }
    for (size_t i = 0; i < items; i++)
        if (active[i]) order.push_back({i, false, rounds[i]++});
    return order;
}

// The order of one rank.  Starting never waits, so a start may come earlier than agreed, unless it has to wait for the end of something;
// finishing may wait for what others have started before, so finishes may only change places among themselves.
template<typename Conflict>
std::vector<Event> ownOrder(pbt::Gen& g, std::vector<Event> o, Conflict conflict)
{
    size_t swaps = g.size(0, 2 * o.size());
    for (size_t k = 0; k < swaps && o.size() > 1; k++)
    {
        size_t i = g.index(o.size() - 1);
        auto &a = o[i], &b = o[i + 1];
        if (a.item == b.item) continue;
        bool may = a.start == b.start || (!a.start && b.start && !conflict(a.item, a.round, b.item, b.round));
        if (may) std::swap(a, b);
    }
    return o;
}

struct Ranks
{
    standin_mpi::Fresh fresh;
    std::vector<int> members;
    MPI_Comm comm;
    uint64_t seed;

    Ranks(pbt::Gen& g, size_t most) : Ranks(g, g.size(1, most), g.below(1u << 30)) {}

    size_t size() const { return members.size(); }

    // f(rank in the communicator) on each member
    template<typename F>
    void run(F f)
    {
        try
        {
            standin_mpi::run(int(fresh.w.alive.size()), seed,
                [&](int world)
                {
                    for (size_t k = 0; k < members.size(); k++)
                        if (members[k] == world) f(k);
                });
        }
        catch (const standin_mpi::Stuck& e)
        {
            pbt::fail("the ranks wait for each other for ever: ", e.what());
        }
        catch (const standin_mpi::Misuse& e)
        {
            pbt::fail("misuse of MPI: ", e.what());
        }
        auto left = standin_mpi::leftover();
        PBT_CHECK(left == "", "at the end: ", left);
    }

private:

    Ranks(pbt::Gen& g, size_t n, uint64_t s) : fresh(int(n)), seed(s)
    {
        if (n > 1 && g.chance(1, 3))
        {
            // some of the ranks, in another order
            auto p = g.permutation(n);
            size_t k = g.size(1, n);
            for (size_t i = 0; i < k; i++) members.push_back(int(p[i]));
            comm = standin_mpi::comm(members);
            g.label("part of the world");
        }
        else
        {
            for (size_t i = 0; i < n; i++) members.push_back(int(i));
            comm = MPI_COMM_WORLD;
        }
        g.note(n, " ranks, ", members.size(), " of them in the communicator");
    }
};
}
