// Contract vocabulary.  The same text is read in two ways:
//  * by the verification-condition generator, for all inputs (every function here is interpreted, bodies below unused);
//  * by the C++ compiler (-DVC_CONCRETE), to replay a failed obligation against the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <array>
#include <optional>
#include <utility>
#include <map>
#include <set>
#include <memory>
#include <stdexcept>

namespace vc {
// assume: the contract's precondition
void require(bool c);
// obligation
void ensure(const char* name, bool c);
// the program point must be reachable (guards against vacuous proofs)
void cover(const char* name);
// an instance of a fact of mathematics, proved in lemmas/<name>.smt2 on every run
void axiom(const char* name, bool c);
// candidate loop invariant over loop variables (captured values are ghosts): checked on entry and for one arbitrary iteration
template <class F> void invariant(F f) { (void)f; }
// the same, with what holds whenever the loop body returns: exit(loop variables..., returned value)
template <class F, class G> void invariant(F f, G exit) { (void)f; (void)exit; }
// value after n steps of the sequence x(0) = seed, x(k+1) = f(x(k), k): a specification function (always conservative)
template <class F> uint64_t recursive(const char* name, uint64_t n, uint64_t seed, F f)
{ uint64_t x = seed; for (uint64_t k = 0; k < n; k++) x = f(x, k); return x; }
// an arbitrary object of a type the property does not depend on (concretely: zeroed storage)
template <class T> T& any(const char* name);
// lemma: proved here, then available as a fact
void lemma(const char* name, bool c);

#ifdef VC_CONCRETE
template <class T> T& any(const char*) { static char raw[1 << 16]; return *(T*)raw; }
template <class T> bool same(const T& a, const T& b) { return a == b; }
template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
    return true;
}
template <class T> bool same(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b)
{
    if (!a || !b) return !a && !b;
    return same(*a, *b);
}
template <class T> bool same(const std::optional<T>& a, const std::optional<T>& b)
{
    if (!a || !b) return !a && !b;
    return same(*a, *b);
}
template <class A, class B> void ensure_eq(const char* name, const A& a, const B& b) { ensure(name, same<A>(a, b)); }
// memberwise equality
#else
template <class A, class B> void ensure_eq(const char* name, const A& a, const B& b);
#endif
}

#ifdef VC_CONCRETE
#include <random>
#include <functional>
#include <sstream>
#include <type_traits>
namespace vc {
struct Skip {};
struct Src {
    bool reading = false;
    std::istringstream in;
    std::mt19937_64 rng;
    std::string out;                       // token trace of the input
    std::vector<uint64_t> pool, consts;    // recently generated values; constants of the code under contract
    int depth = 0;
    uint64_t num(int bits);
    size_t len(size_t max = 400);
    uint64_t tok();
    void put(uint64_t v) { out += std::to_string(v); out += ' '; }
    uint64_t pick(uint64_t n) { return rng() % n; }
};
template <class T, class = void> struct Gen;
template <class T> struct Gen<T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> {
    static T make(Src& s)
    {
        uint64_t v = s.reading ? s.tok() : std::is_enum_v<T> && s.pick(8) ? s.pick(5) : s.num(std::is_same_v<T, bool> ? 1 : sizeof(T) * 8);
        if (std::is_same_v<T, bool>) v &= 1;
        s.put(sizeof(T) == 8 ? v : v & ((1ull << (8 * (sizeof(T) % 8))) - 1));
        return (T)v;
    }
};
template <class T> struct Gen<std::vector<T>> {
    static std::vector<T> make(Src& s)
    {
        size_t n = s.reading ? (size_t)s.tok() : s.len();
        s.put(n);
        std::vector<T> r;
        if constexpr (std::is_integral_v<T> && sizeof(T) == 1) if (!s.reading && n > 0) {
            int m = (int)s.pick(4);
            for (size_t i = 0; i < n; i++) { uint64_t v = m == 0 ? 0 : m == 1 ? s.rng() : m == 2 ? s.num(8) : (s.pick(3) ? 0 : s.rng()); T t = (T)v; s.put((uint8_t)t); r.push_back(t); }
            return r;
        }
        for (size_t i = 0; i < n; i++) {
            // duplicate an earlier element now and then
            r.push_back(Gen<T>::make(s));
        }
        return r;
    }
};
template <> struct Gen<std::string> {
    static std::string make(Src& s)
    {
        size_t n = s.reading ? (size_t)s.tok() : s.len();
        s.put(n);
        std::string r;
        int m = s.reading ? 0 : (int)s.pick(5);
        static const char* al[] = {"0123456789", "0123456789abcdefABCDEF", "0123456789.:[]/'m-", "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz123456789 .\n"};
        for (size_t i = 0; i < n; i++) {
            char c = s.reading ? (char)s.tok() : m == 4 ? (char)s.rng() : al[m][s.pick(std::char_traits<char>::length(al[m]))];
            s.put((uint8_t)c); r.push_back(c);
        }
        return r;
    }
};
template <class T, size_t N> struct Gen<std::array<T, N>> {
    static std::array<T, N> make(Src& s) { std::array<T, N> r; for (auto& x : r) x = Gen<T>::make(s); return r; }
};
template <class T> struct Gen<std::optional<T>> {
    static std::optional<T> make(Src& s)
    {
        bool h = Gen<bool>::make(s);
        if (!h) return std::nullopt;
        return Gen<T>::make(s);
    }
};
template <class A, class B> struct Gen<std::pair<A, B>> {
    static std::pair<A, B> make(Src& s) { A a = Gen<A>::make(s); return {a, Gen<B>::make(s)}; }
};
// harness aggregates: struct X { ...; VC_FIELDS(a, b, c) };
struct GenField { Src& s; template <class U> void operator()(U& u) { u = Gen<U>::make(s); } };
template <class T> struct Gen<T, std::void_t<decltype(std::declval<T&>().vc_each(std::declval<std::function<void(int&)>&>(), 0))>> {
    static T make(Src& s) { T t{}; GenField f{s}; t.vc_each(f, 0); return t; }
};
struct Entry { std::string name; std::function<void(Src&)> run; };
std::vector<Entry>& entries();
template <class... A> std::function<void(Src&)> bindf(void (*f)(A...))
{
    return [f](Src& s) { std::tuple<std::decay_t<A>...> t{Gen<std::decay_t<A>>::make(s)...}; std::apply(f, t); };
}
struct Reg { template <class... A> Reg(const char* n, void (*f)(A...)) { entries().push_back({n, bindf(f)}); } };
}
#define VC_EACH1(f, a) f(a);
#define VC_FIELDS(...) template <class F> void vc_each(F& f, int) { vc_all(f, __VA_ARGS__); } template <class F> static void vc_all(F&) {} template <class F, class A0, class... R> static void vc_all(F& f, A0& a, R&... r) { f(a); vc_all(f, r...); }
// repository classes: construct, then fill the named fields (in declaration order, bases first)
#define VC_GEN(T, ...) namespace vc { template <> struct Gen<T> { static T make(Src& s) { T t{}; fill(GenField{s}, t); return t; } static void fill(GenField g, T& t) { auto F = [&](auto&... x) { (g(x), ...); }; VC_MEMBERS(F, __VA_ARGS__) } }; }
#define VC_M1(a) t.a
#define VC_M2(a, ...) t.a, VC_M1(__VA_ARGS__)
#define VC_M3(a, ...) t.a, VC_M2(__VA_ARGS__)
#define VC_M4(a, ...) t.a, VC_M3(__VA_ARGS__)
#define VC_M5(a, ...) t.a, VC_M4(__VA_ARGS__)
#define VC_M6(a, ...) t.a, VC_M5(__VA_ARGS__)
#define VC_M7(a, ...) t.a, VC_M6(__VA_ARGS__)
#define VC_M8(a, ...) t.a, VC_M7(__VA_ARGS__)
#define VC_M9(a, ...) t.a, VC_M8(__VA_ARGS__)
#define VC_M10(a, ...) t.a, VC_M9(__VA_ARGS__)
#define VC_M11(a, ...) t.a, VC_M10(__VA_ARGS__)
#define VC_M12(a, ...) t.a, VC_M11(__VA_ARGS__)
#define VC_M13(a, ...) t.a, VC_M12(__VA_ARGS__)
#define VC_M14(a, ...) t.a, VC_M13(__VA_ARGS__)
#define VC_M15(a, ...) t.a, VC_M14(__VA_ARGS__)
#define VC_M16(a, ...) t.a, VC_M15(__VA_ARGS__)
#define VC_SEL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, N, ...) VC_M##N
#define VC_MEMBERS(F, ...) F(VC_SEL(__VA_ARGS__, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)(__VA_ARGS__));
#define VC_CONTRACT(name) static vc::Reg vc_reg_##name(#name, name)
#else
#define VC_FIELDS(...)
#define VC_GEN(...)
#define VC_CONTRACT(name) using vc_reg_##name = decltype(&name)
#endif
