// C35: the PETSc solver is given exactly the system.
#include "num.hpp"
#include <optional>
#include "../core/forked.hpp"
#include "NeoFOAM/core/error.hpp"
namespace NeoFOAM::finiteVolume::cellCentred {} // petsc.hpp names it before it is there
#include "NeoFOAM/linearAlgebra/petsc.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
using namespace num;
using NeoFOAM::Dictionary;
namespace la = NeoFOAM::la;
using Entries = std::map<std::pair<PetscInt, PetscInt>, double>;

template class NeoFOAM::RuntimeSelectionFactory<la::SolverFactory, NeoFOAM::Parameters<const Executor&, const Dictionary&>>;

struct Taken
{
    size_t calls = 0;
    PetscInt m = 0, n = 0;
    Entries A;
    std::vector<double> rhs, answer;
    std::string matType, vecType;
};
static void record(Taken& t)
{
    petsc_standin::hook() = [&t](const petsc_standin::Solved& s)
    {
        t.calls++;
        t.m = s.A->m;
        t.n = s.A->n;
        t.A = s.A->v;
        t.rhs = s.b->v;
        t.matType = s.A->type;
        t.vecType = s.b->type;
        PBT_CHECK(s.b != s.x, "right-hand side and solution are one vector");
        s.answer = t.answer;
    };
}
struct System
{
    std::vector<localIdx> row, col;
    std::vector<double> val, rhs;
    Entries entries, transposed;
    std::optional<la::LinearSystem<scalar, localIdx>> ls;
    void make(const Executor& exec)
    {
        for (size_t i = 0; i + 1 < row.size(); i++)
            for (size_t j = row[i]; j < row[i + 1]; j++)
            {
                entries[{PetscInt(i), PetscInt(col[j])}] = val[j];
                transposed[{PetscInt(col[j]), PetscInt(i)}] = val[j];
            }
        ls.emplace(la::CSRMatrix<scalar, localIdx>(field(exec, val), field(exec, col), field(exec, row)), field(exec, rhs));
    }
};
static System system(pbt::Gen& g, const Executor& exec)
{
    System s;
    size_t n = g.size(1, 14), density = g.index(4);
    s.row = {0};
    for (size_t i = 0; i < n; i++)
    {
        std::vector<localIdx> cols;
        for (size_t j = 0; j < n; j++)
            if (density == 3 || (i == j && density) || g.chance(1, 4)) cols.push_back(localIdx(j));
        if (g.chance(1, 3))
        {
            auto order = g.permutation(cols.size());
            auto sorted = cols;
            for (size_t j = 0; j < cols.size(); j++) cols[j] = sorted[order[j]];
        }
        if (cols.empty()) g.label("empty row");
        s.col.insert(s.col.end(), cols.begin(), cols.end());
        s.row.push_back(localIdx(s.col.size()));
    }
    s.val = values<scalar>(g, s.col.size());
    s.rhs = values<scalar>(g, n);
    s.make(exec);
    return s;
}
static std::string show(const Entries& e)
{
    std::string s;
    for (auto& [ij, v] : e) s += "(" + std::to_string(ij.first) + " " + std::to_string(ij.second) + ") " + str(v) + "; ";
    return s;
}

PBT(the_solver_gets_the_system, 12000, 200000, "two systems or more, three rows or more")
{
    auto exec = executor(g);
    Taken t;
    record(t);
    Dictionary d;
    d.insert("solver", std::string("Petsc"));
    std::vector<std::unique_ptr<la::Solver>> solvers;
    solvers.push_back(std::make_unique<la::Solver>(exec, d));
    size_t n = g.size(1, 5), solved = 0, rows = 0;
    long live = petsc_standin::Object::live();
    for (size_t i = 0; i < n; i++)
    {
        auto& one = solvers[g.index(solvers.size())];
        if (g.chance(1, 4))
        {
            g.note("copy of a solver");
            auto copy = std::make_unique<la::Solver>(*one);
            if (g.boolean()) one = std::move(copy);
            else solvers.push_back(std::move(copy));
            g.label("copied solver");
            continue;
        }
        System s = system(g, exec);
        size_t k = s.rhs.size();
        rows = std::max(rows, k);
        solved++;
        g.note("solve ", k, " rows ", show(s.entries), " rhs ", str(s.rhs));
        t = Taken {};
        t.answer = values<scalar>(g, k);
        Field<scalar> x = field(exec, values<scalar>(g, k));
        one->solve(*s.ls, x);
        PBT_CHECK(t.calls == 1, "the system was solved ", t.calls, " times");
        PBT_CHECK(size_t(t.m) == k && size_t(t.n) == k, "the matrix is ", t.m, " by ", t.n);
        // the transposed matrix is a finding of its own (known_findings.txt)
        PBT_CHECK(t.A == s.entries || t.A == s.transposed, "the matrix given to the solver is ", show(t.A));
        exact(t.rhs, s.rhs, "right-hand side given to the solver");
        exact(host(x), t.answer, "solution");
        exact(host(s.ls->rhs()), s.rhs, "right-hand side after solving");
        exact(host(s.ls->matrix().values()), s.val, "matrix after solving");
        PBT_CHECK(host(s.ls->matrix().rowPtrs()) == s.row && host(s.ls->matrix().colIdxs()) == s.col, "pattern after solving");
        PBT_CHECK(x.exec() == exec, "executor of the solution");
        bool gpu = name(exec) == "GPUExecutor";
        PBT_CHECK((t.matType.find("kokkos") != std::string::npos) == gpu && (t.vecType.find("kokkos") != std::string::npos) == gpu, "on ", name(exec), " the matrix is of type ", t.matType, ", the vectors ", t.vecType);
        PBT_CHECK(petsc_standin::Object::live() == live, "objects never destroyed: ", petsc_standin::Object::live() - live);
    }
    if (solved > 1 && rows > 2) g.nontrivial();
}

PBT(large_systems, 6, 60, "every case")
{
    g.nontrivial();
    auto exec = executor(g);
    size_t n = 1 + g.size(400000, 900000);
    g.note(n, " rows");
    System s;
    s.row = {0};
    for (size_t i = 0; i < n; i++)
    {
        if (i) s.col.push_back(localIdx(i - 1)), s.val.push_back(-1.0);
        s.col.push_back(localIdx(i)), s.val.push_back(2.0 + double(i));
        if (i + 1 < n) s.col.push_back(localIdx(i + 1)), s.val.push_back(-1.0);
        s.row.push_back(localIdx(s.col.size()));
    }
    s.rhs.assign(n, 1.0);
    la::LinearSystem<scalar, localIdx> ls(la::CSRMatrix<scalar, localIdx>(field(exec, s.val), field(exec, s.col), field(exec, s.row)), field(exec, s.rhs));
    auto r = forked([&] {
        Taken t;
        record(t);
        t.answer.assign(n, 0.5);
        Dictionary d;
        d.insert("solver", std::string("Petsc"));
        Field<scalar> x = field(exec, s.rhs);
        la::Solver(exec, d).solve(ls, x);
        if (t.calls != 1 || t.A.size() != s.val.size() || t.rhs != s.rhs || host(x) != t.answer) std::exit(1);
    });
    PBT_CHECK(r.exited && r.status == RETURNED, "a system of ", n, " rows was not solved");
}

PBT_KNOWN(the_transposed_system_is_solved)
{
    Executor exec = NeoFOAM::SerialExecutor {};
    System s;
    s.row = {0, 2, 3};
    s.col = {0, 1, 1};
    s.val = {1.0, 2.0, 3.0};
    s.rhs = {1.0, 1.0};
    s.make(exec);
    Taken t;
    record(t);
    t.answer = {0.0, 0.0};
    Dictionary d;
    d.insert("solver", std::string("Petsc"));
    Field<scalar> x = field(exec, s.rhs);
    la::Solver(exec, d).solve(*s.ls, x);
    what = "the system ((1 2) (0 3)) reaches the PETSc solver as " + show(t.A) + "(rows and columns exchanged)";
    return t.A != s.entries;
}
