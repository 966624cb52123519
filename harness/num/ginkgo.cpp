// C34: the Ginkgo solver is configured as the dictionary says and given exactly the system.
#include "num.hpp"
#include <bit>
#include <climits>
#include <deque>
#include <optional>
#include "../core/forked.hpp"
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
using namespace num;
using NeoFOAM::Dictionary;
namespace la = NeoFOAM::la;
using gko::config::pnode;

template class NeoFOAM::RuntimeSelectionFactory<la::SolverFactory, NeoFOAM::Parameters<const Executor&, const Dictionary&>>;

// ---- configurations
static std::string show(const pnode& n)
{
    switch (n.get_tag())
    {
    case pnode::tag_t::string: return "'" + n.get_string() + "'";
    case pnode::tag_t::integer: return std::to_string(n.get_integer());
    case pnode::tag_t::real: return str(n.get_real());
    case pnode::tag_t::boolean: return n.get_boolean() ? "true" : "false";
    case pnode::tag_t::map:
    {
        std::string s = "{";
        for (auto& [k, v] : n.get_map()) s += k + ": " + show(v) + "; ";
        return s + "}";
    }
    case pnode::tag_t::array: return "an array";
    default: return "nothing";
    }
}
static bool agrees(const pnode& a, const pnode& b)
{
    if (a.get_tag() != b.get_tag()) return false;
    if (a.get_tag() == pnode::tag_t::real) return std::bit_cast<std::uint64_t>(a.get_real()) == std::bit_cast<std::uint64_t>(b.get_real()) || (std::isnan(a.get_real()) && std::isnan(b.get_real()));
    if (a.get_tag() != pnode::tag_t::map) return a == b;
    if (a.get_map().size() != b.get_map().size()) return false;
    for (auto& [k, v] : a.get_map())
    {
        auto i = b.get_map().find(k);
        if (i == b.get_map().end() || !agrees(v, i->second)) return false;
    }
    return true;
}
struct Other
{
    int a = 0;
};
struct Config
{
    pbt::Gen& g;
    std::deque<std::string> literals; // what const char* entries point to
    size_t entries = 0, depth = 0;
    bool unsupported = false;
    explicit Config(pbt::Gen& g_) : g(g_) {}
    // an entry of the dictionary and what the configuration is to hold
    std::pair<std::any, pnode> entry(size_t level)
    {
        entries++;
        switch (g.weighted({3, 2, 4, 2, 3, 2, level < 4 ? 4u : 0u, 1}))
        {
        case 0:
        {
            std::string s = g.text(6);
            return {s, pnode(s)};
        }
        case 1:
        {
            std::string s;
            for (char c : g.text(6))
                if (c) s += c;
            literals.push_back(s);
            return {static_cast<const char*>(literals.back().c_str()), pnode(s)};
        }
        case 2:
        {
            int i = g.chance(1, 4) ? g.pick(std::vector<int> {0, 1, -1, INT_MAX, INT_MIN}) : int(g.range(-1000, 1000));
            return {i, pnode(i)};
        }
        case 3:
        {
            unsigned i = g.chance(1, 3) ? g.pick(std::vector<unsigned> {0u, 1u, UINT_MAX, 0x80000000u}) : unsigned(g.below(1000));
            return {i, pnode(std::int64_t(i))};
        }
        case 4:
        {
            double d = g.chance(1, 3) ? g.anyDouble() : g.real();
            return {d, pnode(d)};
        }
        case 5:
        {
            float f = g.chance(1, 4) ? g.pick(std::vector<float> {0.0f, -0.0f, 0.1f, 1e-38f, 3e38f}) : float(g.real());
            return {f, pnode(double(f))};
        }
        case 6:
        {
            depth = std::max(depth, level + 1);
            auto [d, n] = dictionary(level + 1);
            return {d, n};
        }
        default:
        {
            if (!g.chance(1, 6)) return {std::string("plain"), pnode(std::string("plain"))};
            unsupported = true;
            switch (g.index(9))
            {
            case 0: return {true, pnode()};
            case 1: return {long(3), pnode()};
            case 2: return {Other {}, pnode()};
            case 3: return {std::vector<double> {1.0}, pnode()};
            case 4: return {'c', pnode()};
            case 5: return {size_t(7), pnode()};
            case 6: return {std::any(), pnode()};
            case 7: return {std::make_shared<int>(3), pnode()};
            default: return {NeoFOAM::TokenList(), pnode()};
            }
        }
        }
    }
    std::pair<Dictionary, pnode> dictionary(size_t level)
    {
        Dictionary d;
        pnode::map_type m;
        size_t n = g.size(0, 5);
        for (size_t i = 0; i < n; i++)
        {
            std::string k = g.boolean() ? g.text(4) : g.pick(std::vector<std::string> {"type", "criteria", "iteration", "solver", "preconditioner", "value"});
            if (m.count(k)) continue;
            auto [a, node] = entry(level);
            d.insert(k, a);
            m.emplace(k, node);
        }
        return {d, pnode(m)};
    }
};

PBT(configurations_are_the_dictionary, 20000, 600000, "three entries or more, some in sub-dictionaries")
{
    Config c(g);
    auto [d, want] = c.dictionary(0);
    g.note(show(want), c.unsupported ? " and something unsupported" : "");
    if (c.entries > 2 && c.depth) g.nontrivial();
    if (c.unsupported)
    {
        g.label("unsupported entry");
        PBT_THROWS(NeoFOAM::NeoFOAMException, (void)la::ginkgo::parse(d), "an entry the configuration cannot hold was accepted: ", show(want));
        return;
    }
    for (size_t i = 0; i < 2; i++)
    {
        pnode got = la::ginkgo::parse(d);
        PBT_CHECK(agrees(got, want), "configuration is ", show(got), ", the dictionary says ", show(want));
    }
    PBT_CHECK(d.keys().size() == want.get_map().size(), "the dictionary changed");
}

// ---- systems
struct Taken
{
    size_t calls = 0;
    pnode config;
    std::string types, exec;
    bool oneExec = false;
    std::vector<int> row, col;
    std::vector<double> val, rhs, guess, answer;
};

struct System
{
    Executor exec;
    std::vector<localIdx> row, col;
    std::vector<double> val, rhs;
    std::optional<la::LinearSystem<scalar, localIdx>> ls;
};
static void fillSystem(pbt::Gen& g, const Executor& exec, System& s)
{
    s.exec = exec;
    size_t n = g.size(1, 14);
    size_t density = g.index(3);
    s.row = {0};
    for (size_t i = 0; i < n; i++)
    {
        std::vector<localIdx> cols;
        for (size_t j = 0; j < n; j++)
            if (density == 2 || (i == j && density) || g.chance(1, 4)) cols.push_back(localIdx(j));
        if (g.chance(1, 3))
        {
            auto order = g.permutation(cols.size());
            auto sorted = cols;
            for (size_t j = 0; j < cols.size(); j++) cols[j] = sorted[order[j]];
        }
        s.col.insert(s.col.end(), cols.begin(), cols.end());
        s.row.push_back(localIdx(s.col.size()));
    }
    s.val = values<scalar>(g, s.col.size());
    s.rhs = values<scalar>(g, n);
    s.ls.emplace(la::CSRMatrix<scalar, localIdx>(field(exec, s.val), field(exec, s.col), field(exec, s.row)), field(exec, s.rhs));
}

PBT(the_solver_gets_the_system, 12000, 200000, "two systems or more, three rows or more")
{
    // Ginkgo has no counterpart of the GPU executor in a build without GPUs
    auto exec = num::executor(g.index(2));
    Kokkos::standin::seed(g.below(1u << 20));
    g.note("on ", name(exec));
    Taken t;
    gko::standin::hook() = [&](const gko::standin::Solved& s)
    {
        t.calls++;
        t.config = s.config;
        t.types = s.types;
        size_t n = s.A->get_size()[0], nnz = s.A->get_num_stored_elements();
        PBT_CHECK(s.A->get_size()[1] == n && s.b->get_size()[0] == n && s.b->get_size()[1] == 1, "sizes of matrix and right-hand side");
        t.oneExec = s.factoryExec && s.A->get_executor() && s.b->get_executor() && s.x->get_executor()
                 && s.A->get_executor()->get_description() == s.factoryExec->get_description();
        t.exec = s.factoryExec->get_description();
        t.row.assign(s.A->get_const_row_ptrs(), s.A->get_const_row_ptrs() + n + 1);
        t.col.assign(s.A->get_const_col_idxs(), s.A->get_const_col_idxs() + nnz);
        t.val.assign(s.A->get_const_values(), s.A->get_const_values() + nnz);
        t.rhs.clear();
        t.guess.clear();
        for (size_t i = 0; i < n; i++)
        {
            t.rhs.push_back(s.b->at(i, 0));
            t.guess.push_back(s.x->at(i, 0));
            s.x->at(i, 0) = t.answer.at(i);
        }
    };
    struct Made
    {
        std::unique_ptr<la::Solver> solver;
        pnode config;
    };
    std::vector<Made> solvers;
    std::deque<Config> configs;
    size_t n = g.size(1, 5), solved = 0, rows = 0;
    for (size_t i = 0; i < n; i++)
    {
        size_t what = solvers.empty() ? 0 : g.weighted({1, 1, 4});
        if (what == 0)
        {
            configs.emplace_back(g);
            Config& c = configs.back();
            Dictionary d;
            pnode node;
            std::tie(d, node) = c.dictionary(0);
            if (c.unsupported)
            {
                if (node.get_map().count("solver")) continue; // perhaps that one, and it is replaced
                d.insert("solver", std::string("Ginkgo"));
                PBT_THROWS(NeoFOAM::NeoFOAMException, la::Solver(exec, d), "a solver was made from a configuration it cannot hold");
                continue;
            }
            d.insert("solver", std::string("Ginkgo"));
            auto m = node.get_map();
            m.erase("solver");
            m.emplace("solver", pnode("Ginkgo"));
            auto s = std::make_unique<la::Solver>(exec, d);
            g.note("solver with ", show(pnode(m)));
            solvers.push_back({std::move(s), pnode(m)});
        }
        else if (what == 1)
        {
            auto& from = solvers[g.index(solvers.size())];
            g.note("copy of a solver");
            Made copy {std::make_unique<la::Solver>(*from.solver), from.config};
            bool gone = g.boolean();
            if (gone) from.solver = std::move(copy.solver);
            else solvers.push_back(std::move(copy));
            g.label("copied solver");
        }
        else
        {
            auto& s = solvers[g.index(solvers.size())];
            System sys;
            fillSystem(g, exec, sys);
            size_t k = sys.rhs.size();
            rows = std::max(rows, k);
            solved++;
            g.note("solve ", k, " rows, rhs ", str(sys.rhs));
            t = Taken {};
            t.answer = values<scalar>(g, k);
            auto guess = values<scalar>(g, k);
            Field<scalar> x = field(exec, guess);
            s.solver->solve(*sys.ls, x);
            PBT_CHECK(t.calls == 1, "the system was solved ", t.calls, " times");
            PBT_CHECK(agrees(t.config, s.config), "solved with the configuration ", show(t.config), ", the dictionary says ", show(s.config));
            PBT_CHECK(t.oneExec, "matrix and solver are on different executors");
            PBT_CHECK(t.types.rfind("float64", 0) == 0, "number types ", t.types);
            PBT_CHECK(t.row.size() == sys.row.size() && std::equal(t.row.begin(), t.row.end(), sys.row.begin()), "row offsets of the matrix");
            PBT_CHECK(t.col.size() == sys.col.size(), "number of entries of the matrix");
            // the order of the entries of a row is the solver's business
            for (size_t i = 0; i < k; i++)
            {
                std::map<int, double> a, b;
                for (size_t j = sys.row[i]; j < sys.row[i + 1]; j++)
                {
                    a[t.col[j]] = t.val[j];
                    b[int(sys.col[j])] = sys.val[j];
                }
                PBT_CHECK(a == b, "row ", i, " of the matrix");
            }
            exact(t.rhs, sys.rhs, "right-hand side given to the solver");
            exact(t.guess, guess, "first guess given to the solver");
            exact(host(x), t.answer, "solution");
            exact(host(sys.ls->rhs()), sys.rhs, "right-hand side after solving");
            exact(host(sys.ls->matrix().values()), sys.val, "matrix after solving");
            PBT_CHECK(host(sys.ls->matrix().rowPtrs()) == sys.row && host(sys.ls->matrix().colIdxs()) == sys.col, "pattern after solving");
            PBT_CHECK(x.exec() == exec, "executor of the solution");
        }
    }
    if (solved > 1 && rows > 2) g.nontrivial();
}
