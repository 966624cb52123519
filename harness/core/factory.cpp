// C08: run-time selection.  The name a class registers under, its documentation and its schema are generated, so
// registration histories are data; four hierarchies with different constructor parameters share the generated names.
#include "../pbt.hpp"
#include "forked.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"

namespace nf = NeoFOAM;
using nf::BaseClassDocumentation;

constexpr size_t CLASSES = 12;
struct Text
{
    std::string name, doc, schema;
};
template<int H>
std::vector<Text>& texts()
{
    static std::vector<Text> t = []
    {
        std::vector<Text> r;
        for (size_t i = 0; i < CLASSES; i++)
        {
            auto n = std::to_string(i);
            // names that are prefixes of each other, shared by all hierarchies
            r.push_back({"class" + n, "doc " + std::to_string(H) + "/" + n, "schema " + std::to_string(H) + "/" + n});
        }
        return r;
    }();
    return t;
}

static long alive = 0;

struct Token
{
    long v = 0;
    std::vector<long> more;
    bool operator==(const Token&) const = default;
};

// what a created object remembers of its construction
struct Seen
{
    size_t cls = 0;
    std::vector<long> values;
    std::vector<const void*> refs;
};

#define HIERARCHY(B, H, ...)                                                                       \
    class B : public nf::RuntimeSelectionFactory<B, nf::Parameters<__VA_ARGS__>>                   \
    {                                                                                              \
    public:                                                                                        \
        B() { alive++; }                                                                           \
        B(const B&) = delete;                                                                      \
        ~B() override { alive--; }                                                                 \
        virtual const Seen& seen() const = 0;                                                      \
        static std::string name() { return #B; }                                                   \
        static constexpr int h = H;                                                                \
    };

HIERARCHY(Plain, 0)
HIERARCHY(ByValue, 1, int, std::string, Token)
HIERARCHY(ByRef, 2, Token&, const Token&, std::vector<long>&, const std::string&)
HIERARCHY(Moved, 3, std::unique_ptr<Token>, Token&&, Token*)

template<int N>
class PlainD : public Plain::Register<PlainD<N>>
{
public:
    PlainD() { s.cls = N; }
    const Seen& seen() const override { return s; }
    static std::string name() { return texts<0>()[N].name; }
    static std::string doc() { return texts<0>()[N].doc; }
    static std::string schema() { return texts<0>()[N].schema; }
    Seen s;
};

template<int N>
class ByValueD : public ByValue::Register<ByValueD<N>>
{
public:
    ByValueD(int i, std::string str, Token t)
    {
        s.cls = N;
        s.values = {i, long(str.size()), t.v, long(t.more.size())};
        for (char c : str) s.values.push_back(c);
        for (long x : t.more) s.values.push_back(x);
    }
    const Seen& seen() const override { return s; }
    static std::string name() { return texts<1>()[N].name; }
    static std::string doc() { return texts<1>()[N].doc; }
    static std::string schema() { return texts<1>()[N].schema; }
    Seen s;
};

template<int N>
class ByRefD : public ByRef::Register<ByRefD<N>>
{
public:
    ByRefD(Token& a, const Token& b, std::vector<long>& c, const std::string& d)
    {
        s.cls = N;
        s.refs = {&a, &b, &c, &d};
        a.v++; // the caller's object
        c.push_back(b.v);
    }
    const Seen& seen() const override { return s; }
    static std::string name() { return texts<2>()[N].name; }
    static std::string doc() { return texts<2>()[N].doc; }
    static std::string schema() { return texts<2>()[N].schema; }
    Seen s;
};

template<int N>
class MovedD : public Moved::Register<MovedD<N>>
{
public:
    MovedD(std::unique_ptr<Token> a, Token&& b, Token* c) : own(std::move(a)), kept(std::move(b))
    {
        s.cls = N;
        s.refs = {own.get(), c};
        s.values = {kept.v};
        for (long x : kept.more) s.values.push_back(x);
    }
    const Seen& seen() const override { return s; }
    static std::string name() { return texts<3>()[N].name; }
    static std::string doc() { return texts<3>()[N].doc; }
    static std::string schema() { return texts<3>()[N].schema; }
    std::unique_ptr<Token> own;
    Token kept;
    Seen s;
};

template<template<int> class D, size_t... I>
static std::vector<bool (*)()> adders(std::index_sequence<I...>)
{
    return {&D<int(I)>::addSubType...};
}
#define INST(D)                                                                                    \
    template class D<0>;                                                                           \
    template class D<1>;                                                                           \
    template class D<2>;                                                                           \
    template class D<3>;                                                                           \
    template class D<4>;                                                                           \
    template class D<5>;                                                                           \
    template class D<6>;                                                                           \
    template class D<7>;                                                                           \
    template class D<8>;                                                                           \
    template class D<9>;                                                                           \
    template class D<10>;                                                                          \
    template class D<11>;
INST(PlainD)
INST(ByValueD)
INST(ByRefD)
INST(MovedD)

using Seq = std::make_index_sequence<CLASSES>;
static const std::vector<bool (*)()> addPlain = adders<PlainD>(Seq {});
static const std::vector<bool (*)()> addValue = adders<ByValueD>(Seq {});
static const std::vector<bool (*)()> addRef = adders<ByRefD>(Seq {});
static const std::vector<bool (*)()> addMoved = adders<MovedD>(Seq {});

using Model = std::map<std::string, size_t>; // name -> class

static std::string str(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) s += "[" + x + "]";
    return s;
}

// everything one hierarchy says about itself
template<typename Base>
static void agrees(const Model& m, const std::string& what)
{
    auto& t = texts<Base::h>();
    PBT_CHECK(Base::size() == m.size(), what, ": size of ", Base::name(), " is ", Base::size(), ", expected ", m.size());
    auto e = Base::entries();
    auto sorted = e;
    std::sort(sorted.begin(), sorted.end());
    std::vector<std::string> want;
    for (auto& [n, c] : m) want.push_back(n);
    PBT_CHECK(sorted == want, what, ": entries of ", Base::name(), " are ", str(e), " expected ", str(want));
    auto e2 = BaseClassDocumentation::entries(Base::name());
    std::sort(e2.begin(), e2.end());
    PBT_CHECK(e2 == want, what, ": documented entries of ", Base::name(), " are ", str(e2), " expected ", str(want));
    for (auto& [n, c] : m)
    {
        PBT_CHECK(Base::doc(n) == t[c].doc, what, ": doc of ", n, " is ", Base::doc(n), " expected ", t[c].doc);
        PBT_CHECK(Base::schema(n) == t[c].schema, what, ": schema of ", n, " is ", Base::schema(n), " expected ", t[c].schema);
        PBT_CHECK(BaseClassDocumentation::doc(Base::name(), n) == t[c].doc, what, ": doc of ", Base::name(), "/", n);
        PBT_CHECK(BaseClassDocumentation::schema(Base::name(), n) == t[c].schema, what, ": schema of ", Base::name(), "/", n);
    }
    std::ostringstream os;
    Base::print(os);
    std::istringstream is(os.str());
    std::string head;
    std::getline(is, head);
    PBT_CHECK(
        head == Base::name() + std::string(" ") + std::to_string(m.size()), what, ": print begins with ", head
    );
    std::string rest = os.str().substr(std::min(os.str().size(), head.size() + 1));
    size_t total = 0;
    for (auto& n : want)
    {
        PBT_CHECK(("\n" + rest).find("\n - " + n + "\n") != std::string::npos, what, ": print does not list ", n, ":\n", os.str());
        total += n.size() + 4;
    }
    PBT_CHECK(rest.size() == total, what, ": print lists something else besides:\n", os.str());
}

template<typename Base>
static void unknown(const std::string& n, const std::string& what)
{
    PBT_THROWS(std::out_of_range, Base::doc(n), what);
    PBT_THROWS(std::out_of_range, Base::schema(n), what);
    PBT_THROWS(std::out_of_range, BaseClassDocumentation::doc(Base::name(), n), what);
    PBT_THROWS(std::out_of_range, BaseClassDocumentation::schema(Base::name(), n), what);
}

template<typename Base>
static void wipe()
{
    Base::table().clear();
    Base::docTable().clear();
}

static Model initial[4];

// Before anything else: every class registered itself, exactly once, without being asked.
PBT(selfRegistration, 4000, 40000, "always")
{
    static bool saved = false;
    if (!saved)
    {
        saved = true; // the first case of a process sees the tables as start-up left them
        for (auto& m : initial)
            for (size_t i = 0; i < CLASSES; i++) m["class" + std::to_string(i)] = i;
        agrees<Plain>(initial[0], "start-up");
        agrees<ByValue>(initial[1], "start-up");
        agrees<ByRef>(initial[2], "start-up");
        agrees<Moved>(initial[3], "start-up");
    }
    // creating and destroying any number of objects leaves the registry as it was
    std::vector<std::unique_ptr<Plain>> held;
    size_t n = g.size(1, 60);
    for (size_t i = 0; i < n; i++)
    {
        if (!held.empty() && g.boolean()) held.erase(held.begin() + long(g.index(held.size())));
        else
        {
            size_t c = g.index(CLASSES);
            auto name = "class" + std::to_string(c);
            g.note("create ", name);
            held.push_back(Plain::create(name));
            PBT_CHECK(held.back() && held.back()->seen().cls == c, name, " created another class");
        }
    }
    held.clear();
    agrees<Plain>(initial[0], "after use");
    PBT_CHECK(
        BaseClassDocumentation::docTable().size() == 4, "base classes documented: ", BaseClassDocumentation::docTable().size()
    );
    PBT_THROWS(std::out_of_range, BaseClassDocumentation::doc("NoSuchBase", "class0"), "unknown base");
    PBT_THROWS(std::out_of_range, BaseClassDocumentation::schema("NoSuchBase", "class0"), "unknown base");
    PBT_THROWS(std::out_of_range, BaseClassDocumentation::entries("NoSuchBase"), "unknown base");
    g.nontrivial();
}

static std::string genName(pbt::Gen& g, size_t c)
{
    static const std::vector<std::string> pool = {
        "a", "b", "aa", "ab", "", " ", "a ", " a", "A", "linear", "linear2", "linearUpwind", "upwind", "Upwind", "Gauss", "Gauss linear", "a\nb"
    };
    if (g.chance(1, 4)) return g.text(20);
    if (g.chance(1, 4)) return "class" + std::to_string(c);
    return g.pick(pool);
}

PBT(histories, 60000, 1000000, "a name is registered again by another class, or an object is created after a re-registration")
{
    wipe<Plain>();
    wipe<ByValue>();
    wipe<ByRef>();
    wipe<Moved>();
    Model m[4];
    // the generated texts of this case
    for (int h = 0; h < 4; h++)
    {
        auto& t = h == 0 ? texts<0>() : h == 1 ? texts<1>() : h == 2 ? texts<2>() : texts<3>();
        for (size_t c = 0; c < CLASSES; c++)
        {
            t[c].name = genName(g, c);
            t[c].doc = g.chance(1, 8) ? "" : "doc " + std::to_string(h) + "/" + std::to_string(c) + g.text(6);
            t[c].schema = g.chance(1, 8) ? "" : "schema " + std::to_string(h) + "/" + std::to_string(c) + g.text(6);
        }
    }
    long before = alive;
    bool again = false;
    {
        std::vector<std::unique_ptr<Plain>> plains;
        std::vector<std::pair<size_t, std::unique_ptr<ByRef>>> refs;
        size_t ops = g.size(1, 60);
        for (size_t op = 0; op < ops; op++)
        {
            int h = int(g.index(4));
            std::string what;
            switch (g.weighted({5, 6, 1, 1}))
            {
            case 0:
            {
                size_t c = g.index(CLASSES);
                auto& t = h == 0 ? texts<0>() : h == 1 ? texts<1>() : h == 2 ? texts<2>() : texts<3>();
                what = "register class " + std::to_string(c) + " of hierarchy " + std::to_string(h) + " as [" + t[c].name + "]";
                bool ok = (h == 0 ? addPlain : h == 1 ? addValue : h == 2 ? addRef : addMoved)[c]();
                PBT_CHECK(ok, what, ": registration reported failure");
                auto it = m[h].find(t[c].name);
                if (it != m[h].end())
                {
                    again = true;
                    g.label(it->second == c ? "registered twice" : "name taken over");
                }
                m[h][t[c].name] = c;
                break;
            }
            case 1: // create
            {
                if (m[h].empty()) continue;
                if (again) g.nontrivial();
                auto it = std::next(m[h].begin(), long(g.index(m[h].size())));
                auto name = it->first;
                what = "create [" + name + "] of hierarchy " + std::to_string(h);
                Seen s;
                if (h == 0)
                {
                    auto p = Plain::create(name);
                    PBT_CHECK(p != nullptr, what, ": no object");
                    s = p->seen();
                    if (g.boolean()) plains.push_back(std::move(p));
                }
                else if (h == 1)
                {
                    int i = int(g.range(-5, 1000000));
                    std::string st = g.text(40);
                    Token t {g.range(-9, 9), {}};
                    for (size_t k = g.size(0, 9); k > 0; k--) t.more.push_back(g.range(0, 99));
                    auto st0 = st;
                    auto t0 = t;
                    auto p = ByValue::create(name, i, st, t);
                    PBT_CHECK(p != nullptr, what, ": no object");
                    s = p->seen();
                    std::vector<long> want = {i, long(st.size()), t.v, long(t.more.size())};
                    for (char c : st) want.push_back(c);
                    for (long x : t.more) want.push_back(x);
                    PBT_CHECK(s.values == want, what, ": the constructor saw other values");
                    PBT_CHECK(st == st0 && t == t0, what, ": the caller's arguments changed");
                }
                else if (h == 2)
                {
                    Token a {g.range(-9, 9), {1}}, b {g.range(-9, 9), {}};
                    std::vector<long> c {7};
                    std::string d = g.text(30);
                    long av = a.v;
                    auto p = ByRef::create(name, a, b, c, d);
                    PBT_CHECK(p != nullptr, what, ": no object");
                    s = p->seen();
                    PBT_CHECK(
                        s.refs == (std::vector<const void*> {&a, &b, &c, &d}), what, ": a reference does not lead to the caller's object"
                    );
                    PBT_CHECK(a.v == av + 1 && c == (std::vector<long> {7, b.v}), what, ": effects on the arguments");
                    refs.emplace_back(it->second, std::move(p));
                }
                else
                {
                    auto own = std::make_unique<Token>(Token {g.range(-9, 9), {2, 3}});
                    auto* raw = own.get();
                    Token b {g.range(-9, 9), {4, 5, 6}}, c;
                    std::vector<long> want {b.v, 4, 5, 6};
                    auto p = Moved::create(name, std::move(own), std::move(b), &c);
                    PBT_CHECK(p != nullptr, what, ": no object");
                    s = p->seen();
                    PBT_CHECK(s.refs == (std::vector<const void*> {raw, &c}), what, ": the moved object is another one");
                    PBT_CHECK(s.values == want, what, ": the moved value changed");
                }
                PBT_CHECK(s.cls == it->second, what, ": created class ", s.cls, ", registered is class ", it->second);
                break;
            }
            case 2: // destroy
                what = "destroy";
                if (!plains.empty()) plains.erase(plains.begin() + long(g.index(plains.size())));
                break;
            default:
            {
                auto n = genName(g, g.index(CLASSES));
                what = "look up [" + n + "]";
                if (!m[0].count(n)) unknown<Plain>(n, what);
                if (!m[1].count(n)) unknown<ByValue>(n, what);
                if (!m[2].count(n)) unknown<ByRef>(n, what);
                if (!m[3].count(n)) unknown<Moved>(n, what);
                break;
            }
            }
            g.note(what);
            if (op + 1 == ops || g.chance(1, 4))
            {
                agrees<Plain>(m[0], what);
                agrees<ByValue>(m[1], what);
                agrees<ByRef>(m[2], what);
                agrees<Moved>(m[3], what);
            }
        }
        for (auto& [c, p] : refs) PBT_CHECK(p->seen().cls == c, "an object changed its class");
    }
    PBT_CHECK(alive == before, alive - before, " objects outlive their owners");
}

PBT(unknownNames, 8000, 100000, "at least two names are registered")
{
    wipe<Plain>();
    wipe<ByValue>();
    Model m[2];
    for (size_t c = 0; c < CLASSES; c++)
    {
        texts<0>()[c].name = genName(g, c);
        texts<1>()[c].name = genName(g, c);
    }
    size_t n = g.size(0, CLASSES);
    for (size_t i = 0; i < n; i++)
    {
        size_t c = g.index(CLASSES);
        bool h = g.boolean();
        (h ? addValue : addPlain)[c]();
        m[h][h ? texts<1>()[c].name : texts<0>()[c].name] = c;
    }
    bool h = g.boolean();
    std::string asked = genName(g, g.index(CLASSES));
    if (m[h].count(asked)) asked += "x";
    while (m[h].count(asked)) asked += "x";
    g.note("hierarchy ", h, ", ", m[h].size(), " names, asked for [", asked, "]");
    long a = alive;
    auto r = forked(
        [&]
        {
            if (h) ByValue::create(asked, 1, "x", Token {});
            else Plain::create(asked);
        }
    );
    PBT_CHECK(alive == a, "an object appeared");
    PBT_CHECK(!(r.exited && r.status == RETURNED), "create(", asked, ") returned");
    PBT_CHECK(!(r.exited && r.status == THREW), "create(", asked, ") threw past the caller");
    PBT_CHECK(r.exited && r.status == 1, "create(", asked, ") ended with ", r.exited ? "status " : "signal ", r.status, "\n", r.err);
    PBT_CHECK(r.err.find(asked) != std::string::npos, "the message does not name the request: ", r.err);
    bool list = r.err.find("\n - ") != std::string::npos && r.err.find("valid constructors are") != std::string::npos;
    for (auto& [k, c] : m[h])
        PBT_CHECK(
            (list ? ("\n" + r.err).find("\n - " + k + "\n") : r.err.find(k)) != std::string::npos, "the message does not list the valid name [", k, "]: ", r.err
        );
    // and no name of the other hierarchy
    size_t listed = 0;
    for (size_t p = r.err.find("valid constructors are"); (p = r.err.find("\n - ", p)) != std::string::npos; p += 4) listed++;
    PBT_CHECK(!list || listed == m[h].size(), listed, " names listed, ", m[h].size(), " registered: ", r.err);
    if (m[h].size() > 1) g.nontrivial();
}
