// Reference model of the values NeoFOAM's Dictionary and TokenList carry.
#pragma once
#include "../pbt.hpp"

#include <any>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"

#include "capture.hpp"

namespace model
{

enum Kind
{
    Int = 0,
    Str,
    Double,
    Bool,
    Float,
    Long,
    SizeT,
    Unsigned,
    Char,
    CStr,
    VecD,
    Ptr,
    Dict,
    Tokens,
    Empty,
    KINDS
};

inline const char* kindName(int k)
{
    static const char* n[] = {"int",  "string", "double", "bool",    "float", "long",       "size_t",
                              "unsigned", "char", "cstr", "vector", "ptr",   "Dictionary", "TokenList",
                              "empty"};
    return n[k];
}

struct Val;
using MDict = std::map<std::string, Val>;
using MList = std::vector<Val>;

struct Val
{
    Kind kind = Int;
    int64_t i = 0;
    std::string s;
    std::shared_ptr<MDict> dict;
    std::shared_ptr<MList> list;
    std::shared_ptr<int> ptr;
};

inline Val deep(const Val& v);
inline MDict deep(const MDict& d)
{
    MDict r;
    for (auto& [k, v] : d) r.emplace(k, deep(v));
    return r;
}
inline MList deep(const MList& l)
{
    MList r;
    for (auto& v : l) r.push_back(deep(v));
    return r;
}
inline Val deep(const Val& v)
{
    Val r = v;
    if (v.dict) r.dict = std::make_shared<MDict>(deep(*v.dict));
    if (v.list) r.list = std::make_shared<MList>(deep(*v.list));
    return r;
}

inline const char* cstrOf(int64_t i)
{
    static const char* t[] = {"", "alpha", "beta", "a much longer literal, past any small buffer"};
    return t[static_cast<size_t>(i) & 3];
}

inline std::vector<double> vecOf(int64_t i)
{
    return std::vector<double>(static_cast<size_t>(i & 7), double(i) * 0.5);
}

using Doubles = std::vector<double>;
using IntPtr = std::shared_ptr<int>;

// f.template operator()<T>() for the C++ type a kind stands for
template<typename F>
auto withType(Kind k, F&& f)
{
    switch (k)
    {
    case Str:
        return f.template operator()<std::string>();
    case Double:
        return f.template operator()<double>();
    case Bool:
        return f.template operator()<bool>();
    case Float:
        return f.template operator()<float>();
    case Long:
        return f.template operator()<long>();
    case SizeT:
        return f.template operator()<std::size_t>();
    case Unsigned:
        return f.template operator()<unsigned>();
    case Char:
        return f.template operator()<char>();
    case CStr:
        return f.template operator()<const char*>();
    case VecD:
        return f.template operator()<Doubles>();
    case Ptr:
        return f.template operator()<IntPtr>();
    case Dict:
        return f.template operator()<NeoFOAM::Dictionary>();
    case Tokens:
        return f.template operator()<NeoFOAM::TokenList>();
    default:
        return f.template operator()<int>();
    }
}

inline std::any toAny(const Val& v);

inline NeoFOAM::Dictionary toDict(const MDict& d)
{
    NeoFOAM::Dictionary r;
    for (auto& [k, v] : d) r.insert(k, toAny(v));
    return r;
}

inline std::vector<std::any> toAnys(const MList& l)
{
    std::vector<std::any> r;
    for (auto& v : l) r.push_back(toAny(v));
    return r;
}

inline std::any toAny(const Val& v)
{
    switch (v.kind)
    {
    case Int:
        return std::any(static_cast<int>(v.i));
    case Str:
        return std::any(v.s);
    case Double:
        return std::any(double(v.i) * 0.25);
    case Bool:
        return std::any((v.i & 1) != 0);
    case Float:
        return std::any(float(v.i) * 0.5f);
    case Long:
        return std::any(static_cast<long>(v.i));
    case SizeT:
        return std::any(static_cast<std::size_t>(v.i));
    case Unsigned:
        return std::any(static_cast<unsigned>(v.i));
    case Char:
        return std::any(static_cast<char>(v.i & 127));
    case CStr:
        return std::any(cstrOf(v.i));
    case VecD:
        return std::any(vecOf(v.i));
    case Ptr:
        return std::any(v.ptr);
    case Dict:
        return std::any(toDict(*v.dict));
    case Tokens:
        return std::any(NeoFOAM::TokenList(toAnys(*v.list)));
    default:
        return std::any();
    }
}

inline std::string show(const Val& v)
{
    std::ostringstream os;
    os << kindName(v.kind);
    if (v.kind == Str) os << "(\"" << v.s << "\")";
    else if (v.kind == Dict)
    {
        os << "{";
        for (auto& [k, x] : *v.dict) os << k << ":" << show(x) << " ";
        os << "}";
    }
    else if (v.kind == Tokens)
    {
        os << "[";
        for (auto& x : *v.list) os << show(x) << " ";
        os << "]";
    }
    else if (v.kind == Ptr) os << "(" << *v.ptr << ")";
    else if (v.kind != Empty) os << "(" << v.i << ")";
    return os.str();
}

inline void compare(const std::any& a, const Val& v, const std::string& where);

template<typename D>
void compareDict(D& d, const MDict& m, const std::string& where)
{
    PBT_CHECK(d.empty() == m.empty(), where, ": empty() says ", d.empty(), " for ", m.size(), " entries");
    auto keys = d.keys();
    std::vector<std::string> want;
    for (auto& [k, v] : m) want.push_back(k);
    std::sort(keys.begin(), keys.end());
    PBT_CHECK(keys == want, where, ": keys() lists ", keys.size(), " keys, the model has ", want.size());
    PBT_CHECK(d.getMap().size() == m.size(), where, ": the map has ", d.getMap().size(), " entries");
    const NeoFOAM::Dictionary& cd = d;
    for (auto& [k, v] : m)
    {
        PBT_CHECK(d.contains(k), where, ": contains(", k, ") is false");
        PBT_CHECK(
            d.isDict(k) == (v.kind == Dict), where, ": isDict(", k, ") for a value of kind ", kindName(v.kind)
        );
        compare(cd[k], v, where + "/" + k);
        PBT_CHECK(&d[k] == &cd[k], where, ": const and non-const access to ", k, " differ");
    }
}

inline void compareTokens(const NeoFOAM::TokenList& t, const MList& m, const std::string& where)
{
    PBT_CHECK(t.size() == m.size(), where, ": size() is ", t.size(), ", the model has ", m.size());
    PBT_CHECK(t.empty() == m.empty(), where, ": empty()");
    auto& tokens = const_cast<NeoFOAM::TokenList&>(t).tokens();
    PBT_CHECK(tokens.size() == m.size(), where, ": tokens() has ", tokens.size());
    for (size_t i = 0; i < m.size(); i++) compare(tokens[i], m[i], where + "#" + std::to_string(i));
}

inline void compare(const std::any& a, const Val& v, const std::string& where)
{
    if (v.kind == Empty)
    {
        PBT_CHECK(!a.has_value(), where, ": expected an empty value");
        return;
    }
    withType(
        v.kind,
        [&]<typename T>()
        {
            const T* p = std::any_cast<T>(&a);
            PBT_CHECK(p, where, ": holds ", a.type().name(), ", expected kind ", kindName(v.kind));
            if constexpr (std::is_same_v<T, NeoFOAM::Dictionary>)
                compareDict(const_cast<T&>(*p), *v.dict, where);
            else if constexpr (std::is_same_v<T, NeoFOAM::TokenList>) compareTokens(*p, *v.list, where);
            else if constexpr (std::is_same_v<T, IntPtr>)
                PBT_CHECK(p->get() == v.ptr.get(), where, ": another shared object");
            else
            {
                auto want = toAny(v);
                PBT_CHECK(*p == std::any_cast<const T&>(want), where, ": wrong value, expected ", show(v));
            }
        }
    );
}

inline std::string genKey(pbt::Gen& g)
{
    static const std::vector<std::string> common {
        "a", "b", "c", "type", "ddtSchemes", "key1", "key2", "Key1", "key", "key1 ", "a.b", "a/b"
    };
    switch (g.weighted({8, 3, 1, 1}))
    {
    case 0:
        return g.pick(common);
    case 1:
        return g.text(8);
    case 2:
        return g.text(1) + std::string(static_cast<size_t>(g.range(14, 200)), 'x') + g.text(2);
    default:
        return std::string("k") + std::to_string(g.range(0, 400));
    }
}

inline Val genVal(pbt::Gen& g, int depth = 2)
{
    Val v;
    v.kind = static_cast<Kind>(g.weighted({4, 4, 3, 2, 1, 2, 2, 1, 1, 1, 2, 1, 4, 2, 1}));
    if (depth <= 0 && (v.kind == Dict || v.kind == Tokens)) v.kind = Int;
    v.i = g.range(0, 100);
    if (v.kind == Int || v.kind == Long || v.kind == Double)
        if (g.chance(1, 4)) v.i = -v.i - 1;
    if (v.kind == Str) v.s = g.text(40);
    if (v.kind == Ptr) v.ptr = std::make_shared<int>(static_cast<int>(v.i));
    if (v.kind == Dict)
    {
        v.dict = std::make_shared<MDict>();
        size_t n = g.size(0, 4);
        for (size_t i = 0; i < n; i++)
        {
            auto k = genKey(g);
            (*v.dict)[k] = genVal(g, depth - 1);
        }
    }
    if (v.kind == Tokens)
    {
        v.list = std::make_shared<MList>();
        size_t n = g.size(0, 4);
        for (size_t i = 0; i < n; i++) v.list->push_back(genVal(g, depth - 1));
    }
    return v;
}

} // namespace model
