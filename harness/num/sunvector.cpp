// C40: vectors handed to SUNDIALS carry exactly a field's values.
#include "equations.hpp"
#include "NeoFOAM/timeIntegration/sundials.hpp"
namespace sun = NeoFOAM::sundials;
using SK = sun::SKVector<scalar>;

struct Entry
{
    std::unique_ptr<SK> v;
    Executor exec;
    size_t n;
    std::optional<std::vector<double>> values; // unknown after a copy, which takes the shape only
};

static std::shared_ptr<SUNContext> context()
{
    std::shared_ptr<SUNContext> c(new SUNContext(), sun::SUN_CONTEXT_DELETER);
    SUNContext_Create(SUN_COMM_NULL, c.get());
    return c;
}
static void check(Entry& e, const std::string& what)
{
    N_Vector n = e.v->sunNVector();
    PBT_CHECK(n != nullptr && std::as_const(*e.v).sunNVector() == n, what, ": no vector");
    PBT_CHECK(N_VGetLength(n) == sunindextype(e.n), what, ": length ", N_VGetLength(n), ", expected ", e.n);
    size_t kind = std::holds_alternative<NeoFOAM::SerialExecutor>(e.exec) ? 0 : std::holds_alternative<NeoFOAM::CPUExecutor>(e.exec) ? 1 : 2;
    PBT_CHECK(e.v->variant().index() == kind, what, ": the vector is of kind ", e.v->variant().index(), " on executor ", name(e.exec));
    if (e.values)
    {
        Field<scalar> f(e.exec, e.n, -1.0);
        sun::sunNVectorToField(n, f);
        exact(host(f), *e.values, what);
    }
}

PBT(vectors_mirror_fields, 12000, 300000, "two vectors or more, one of them copied or moved")
{
    std::vector<std::shared_ptr<SUNContext>> contexts {context(), context()};
    std::vector<Entry> all;
    size_t steps = g.size(1, 14);
    bool second = false, taken = false;
    for (size_t s = 0; s < steps; s++)
    {
        size_t op = all.empty() ? 0 : g.index(7);
        if (op == 0 && all.size() < 5)
        {
            Entry e {std::make_unique<SK>(), executor(g), g.size(1, 12), std::nullopt};
            e.v->setExecutor(e.exec);
            e.v->initNVector(e.n, g.pick(contexts));
            all.push_back(std::move(e));
            g.note("vector ", all.size() - 1, " of ", all.back().n, " on ", name(all.back().exec));
        }
        else if (all.empty()) continue;
        else
        {
            size_t i = g.index(all.size());
            Entry& e = all[i];
            if (op == 1 || op == 2)
            {
                auto v = values<scalar>(g, e.n);
                Field<scalar> f = field(e.exec, v);
                sun::fieldToSunNVector(f, e.v->sunNVector());
                exact(host(f), v, "field written from");
                e.values = v;
                g.note("write ", i);
            }
            else if (op == 3 && all.size() < 5)
            {
                Entry c {std::make_unique<SK>(*e.v), e.exec, e.n, std::nullopt};
                g.note("copy ", i, " to ", all.size());
                PBT_CHECK(c.v->sunNVector() != e.v->sunNVector() && N_VGetArrayPointer(c.v->sunNVector()) != N_VGetArrayPointer(e.v->sunNVector()),
                    "a copy of a vector refers to the original");
                all.push_back(std::move(c));
                taken = true;
            }
            else if (op == 4)
            {
                e.v = std::make_unique<SK>(std::move(*e.v));
                g.note("move ", i);
                taken = true;
            }
            else if (op == 5)
            {
                g.note("drop ", i);
                all.erase(all.begin() + long(i));
            }
            else if (op == 6)
            {
                // of another size, perhaps on another executor
                bool stay = g.boolean();
                if (!stay) e.exec = executor(g);
                e.n = g.size(1, 12);
                e.values.reset();
                if (!stay) e.v->setExecutor(e.exec);
                e.v->initNVector(e.n, g.pick(contexts));
                g.note("start ", i, " again with ", e.n);
            }
        }
        second = second || all.size() > 1;
        for (size_t i = 0; i < all.size(); i++) check(all[i], "vector " + std::to_string(i));
    }
    if (second && taken) g.nontrivial();
}
