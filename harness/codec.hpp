// How the integers of the specification are written as values of the configured element type.
// An element e of a map is key*KM + value; of any other tree it is the value itself.
#pragma once
#include "exec.hpp"

namespace vx {
// numbers may be written scaled and shifted, so that sums, orders and extremes of the specification's small integers are
// those of numbers that need every bit of their type
#ifndef VX_SCALE
#define VX_SCALE 1
#endif
#ifndef VX_SHIFT
#define VX_SHIFT 0
#endif
constexpr bool SCALED = VX_SCALE != 1 || VX_SHIFT != 0;
template <typename X> struct Enc {      // arithmetic
    static X mk(int e) { if constexpr (!SCALED) return static_cast<X>(e); else return static_cast<X>(e * VX_SCALE + VX_SHIFT); }
    static int un(X const& x) {
        if constexpr (!SCALED) return static_cast<int>(x);
        else {
            auto d = static_cast<std::common_type_t<X, decltype(VX_SCALE), int64_t>>(x) - VX_SHIFT;
            int e = static_cast<int>(d / VX_SCALE);
            return e * VX_SCALE == d && e > -1000000000 && e < 1000000000 ? e : -999999;
        }
    }
};
template <> struct Enc<std::string> {   // long enough not to fit into the string object, ordered like the numbers
    static std::string mk(int e) { char t[64]; snprintf(t, sizeof t, "%08d/a string that lives on the heap", e + 10000000); return t; }
    static int un(std::string const& s) { return s.size() > 8 && s[8] == '/' ? atoi(s.c_str()) - 10000000 : -99; }
};
// a number whose operators are templates, so that a proxy only has them because the library says so
template <typename X> struct Box { X x; Box() : x() {} explicit Box(int v) : x(static_cast<X>(v)) {} explicit operator int() const { return static_cast<int>(x); }
    Box& operator++() { ++x; return *this; } Box& operator--() { --x; return *this; } Box operator++(int) { Box o(*this); ++x; return o; } Box operator--(int) { Box o(*this); --x; return o; } };
#define VX_REL(op) template <typename X> bool operator op(Box<X> const& a, Box<X> const& b) { return a.x op b.x; }
#define VX_ARI(op) template <typename X> Box<X> operator op(Box<X> const& a, Box<X> const& b) { return Box<X>(static_cast<int>(a.x op b.x)); }
VX_REL(==) VX_REL(!=) VX_REL(<) VX_REL(>) VX_REL(<=) VX_REL(>=)
VX_ARI(+) VX_ARI(-) VX_ARI(*) VX_ARI(/) VX_ARI(%) VX_ARI(^) VX_ARI(&) VX_ARI(|) VX_ARI(<<) VX_ARI(>>)
template <typename X> struct Enc<Box<X>> { static Box<X> mk(int e) { return Box<X>(e); } static int un(Box<X> const& b) { return static_cast<int>(b.x); } };
// pointers into a table, ordered like the numbers they stand for
using Ptr = int const*;
inline int const table[131072] = {};
template <> struct Enc<Ptr> { static Ptr mk(int e) { return table + 1024 + e; } static int un(Ptr p) { return p >= table && p < table + 131072 ? static_cast<int>(p - table) - 1024 : -999999; } };
template <typename X> struct IsBox : std::false_type {};
template <typename X> struct IsBox<Box<X>> : std::true_type {};
// an element whose every construction, assignment, use and destruction is recorded
struct Tr {
    int x;
    explicit Tr(int v) : x(v) { Life::op(MAKE, this); }
    Tr() : x(0) { Life::op(MAKE, this); }
    Tr(Tr const& o) : x(o.x) { Life::op(COPY, this, &o); }
    Tr(Tr&& o) noexcept : x(o.x) { Life::op(MOVE, this, &o); if (this != &o) o.x = 7777777; }
    Tr& operator=(Tr const& o) { x = o.x; Life::op(SET, this, &o); return *this; }
    Tr& operator=(Tr&& o) noexcept { x = o.x; Life::op(SETMOVE, this, &o); if (this != &o) o.x = 7777777; return *this; }
    ~Tr() { Life::op(KILL, this); x = 8888888; }
    int get() const { Life::op(READ, this); return x; }
    friend bool operator<(Tr const& a, Tr const& b) { return a.get() < b.get(); }
    friend bool operator>(Tr const& a, Tr const& b) { return a.get() > b.get(); }
    friend bool operator<=(Tr const& a, Tr const& b) { return a.get() <= b.get(); }
    friend bool operator>=(Tr const& a, Tr const& b) { return a.get() >= b.get(); }
    friend bool operator==(Tr const& a, Tr const& b) { return a.get() == b.get(); }
    friend bool operator!=(Tr const& a, Tr const& b) { return a.get() != b.get(); }
};
template <> struct Enc<Tr> { static Tr mk(int e) { return Tr(e); } static int un(Tr const& t) { return t.get(); } };
struct TrSum { int operator()(Tr const& t) const { return t.get(); } };
// base of all configurations
struct Base {
    static constexpr bool ORD = false, IDX = false, SUM = false, MIN = false, MAX = false, MAPPED = false, ARITH = false,
        HASPROXY = true, HASUPK = true, ALGO = true, NEG = false, FLIP = false, BOX = false;
    static constexpr bool SAFE =
#ifdef BPPTREE_SAFETY_CHECKS
        true;
#else
        false;
#endif
    static constexpr int KM = 1, KDIR = 1, MAXK = 40, MAXV = 0, ALC = 1, BIG = 40,
        LB = 512, IB = 512, DL = 16;       // bytes per leaf and inner node and depth that were asked for
    static constexpr char const *SUMF = "e", *MINF = "e", *MAXF = "e";
    static constexpr int MINDIR = 1, MAXDIR = -1;
    using SZ = size_t;
    using SumT = long;
    template <typename S> static int uns(S const& x) { return Enc<S>::un(x); }
    template <typename S> static S mks(int x) { return Enc<S>::mk(x); }
};
template <typename C> Info info_of() {
    typename C::Tree::Transient t;
    return Info{C::NAME, C::ORD, C::IDX, C::SUM, C::MIN, C::MAX, C::MAPPED, C::ARITH, C::HASPROXY, C::SAFE, C::ALGO, C::NEG,
        C::KM, C::KDIR, C::MAXK, C::MAXV, C::SUMF, C::MINF, C::MAXF, C::MINDIR, C::MAXDIR, 0, 0, (int)t.max_depth(), C::ALC, C::BIG, C::LB, C::IB, C::DL, 0, 0};
}
template <typename V_> struct Plain : Base {
    static constexpr int MAXV = 99;
    using V = V_; using K = V_; using M = V_;
    static constexpr bool BOX = IsBox<V>::value, ARITH = (std::is_arithmetic_v<V> && !SCALED) || BOX;
    static V mk(int e) { return Enc<V>::mk(e); }
    static int un(V const& x) { return Enc<V>::un(x); }
    static K mkk(int k) { return mk(k); }
    static M mkm(int m) { return mk(m); }
    static int unm(V const& x) { return un(x); }
    template <typename F> static int unf(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static int unf_min(F const& f) { return unf(f); }
    template <typename F> static int unf_max(F const& f) { return unf(f); }
    template <typename F> static void args(int v, int e, F&& f) {
        if constexpr (!F_SPELL) { V const x = mk(e); f(x); }
        else switch (v % 3) {
            case 0: { V const x = mk(e); f(x); break; }
            case 1: { V x = mk(e); f(std::move(x)); break; }
            default: { V x = mk(e); f(x); }
        }
        (void)v;
    }
    static int proxy_shadow(int old, int op, int b) { return proxy_new(old, op, b); }
    static int proxy_new(int x, int op, int b) {
        switch (op) {
            case 0: return x + b; case 1: return x - b; case 2: return x * b; case 3: return x / b; case 4: return x % b;
            case 5: return x & b; case 6: return x | b; case 7: return x ^ b; case 8: return x << b; case 9: return x >> b;
            case 10: case 12: return x + 1; case 11: case 13: return x - 1; default: return b;
        }
    }
    static V const& key_ref(V const& v) { return v; }
    static V const& mapped_ref(V const& v) { return v; }
};
// plain numbers in sets that compare all but the last digit
struct TensLess { bool operator()(int a, int b) const { return (a + 1000000) / 10 < (b + 1000000) / 10; } };
struct TensGreater { bool operator()(int a, int b) const { return TensLess()(b, a); } };
struct Tens : Plain<int> {
    static constexpr int KM = 10, MAXV = 9;
    static constexpr bool ORD = true, HASPROXY = false;
    static K mkk(int k) { return k * 10 + ((k * 7) % 10 + 10) % 10; }    // any number of that ten
};
// three fields, the last of them the key: whatever else is looked up or replaced is the whole element
struct Triple : Base {
    using V = std::tuple<short, int, int>; using K = int; using M = V;
    static constexpr int KM = 10, MAXV = 9;
    static constexpr bool ORD = true, HASPROXY = false, HASUPK = false;
    static constexpr char const *MINF = "v", *MAXF = "v";
    static int k(int e) { return e >= 0 ? e / 10 : -((-e + 9) / 10); }
    static V mk(int e) { return V(static_cast<short>(e - k(e) * 10), e + 5, k(e)); }
    static int un(V const& x) { int e = std::get<2>(x) * 10 + std::get<0>(x); return std::get<1>(x) == e + 5 ? e : -999999; }
    static K mkk(int key) { return key; }
    static M mkm(int m) { return mk(m); }
    static int unm(V const& x) { return un(x); }
    template <typename F> static int unf_min(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static int unf_max(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static void args(int v, int e, F&& f) {
        if constexpr (!F_SPELL) { V x = mk(e); f(std::move(x)); }
        else switch (v % 4) {
            case 0: { V const x = mk(e); f(x); break; }
            case 1: { V x = mk(e); f(std::move(x)); break; }
            case 2: { V x = mk(e); f(std::get<0>(x), std::get<1>(x), std::get<2>(x)); break; }
            default: { V x = mk(e); f(std::move(std::get<0>(x)), e + 5, std::move(std::get<2>(x))); break; }
        }
        (void)v;
    }
    static int proxy_shadow(int old, int op, int b) { return Plain<int>::proxy_new(old, op, b); }
    static K const& key_ref(V const& v) { return std::get<2>(v); }
    static M const& mapped_ref(V const& v) { return v; }
};
// elements that own what they point to, and keys that point into it
using Own = std::shared_ptr<std::pair<int, int> const>;
struct OwnKey {
    int const* operator()(Own const& p) const { return &p->first; }
    int const* get_key(Own const& p) const { return &p->first; }
    Own const& get_value(Own const& p) const { return p; }
};
struct OwnLess { bool operator()(int const* a, int const* b) const { return *a < *b; } };
struct OwnValue { int operator()(Own const& p) const { return p->second; } };
struct Owned : Base {
    using V = Own; using K = int const*; using M = V;
    static constexpr int KM = 10, MAXV = 9, ALC = 0;
    static constexpr bool ORD = true, HASPROXY = false, HASUPK = false;
    static constexpr char const *SUMF = "v", *MINF = "v", *MAXF = "v";
    static V mk(int e) { int k = Triple::k(e); return std::make_shared<std::pair<int, int> const>(k, e - k * 10); }
    static int un(V const& x) { return x && x->second >= 0 && x->second < 10 ? x->first * 10 + x->second : -999999; }
    static K mkk(int k) { static std::vector<int> const t = [] { std::vector<int> r; for (int i = -1024; i < 200000; ++i) r.push_back(i); return r; }(); return &t[static_cast<size_t>(k + 1024)]; }
    static M mkm(int m) { return mk(m); }
    static int unm(V const& x) { return un(x); }
    template <typename F> static int unf_min(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static int unf_max(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static void args(int v, int e, F&& f) { if (v % 2) { V const x = mk(e); f(x); } else { V x = mk(e); f(std::move(x)); } }
    static int proxy_shadow(int old, int op, int b) { return Plain<int>::proxy_new(old, op, b); }
    static V const& mapped_ref(V const& v) { return v; }
};
template <typename K_, typename M_, int KM_ = 1000, bool flip = false> struct PairOf : Base {     // flip: second is the key
    using K = K_; using M = M_;
    using V = std::conditional_t<flip, std::pair<M_, K_>, std::pair<K_, M_>>;
    static constexpr int KM = KM_, MAXV = KM_ - 1;
    static constexpr bool BOX = IsBox<M>::value, ARITH = (std::is_arithmetic_v<M> && !SCALED) || BOX, FLIP = flip;
    static constexpr char const *SUMF = "v", *MINF = "v", *MAXF = "v";
    static int fd(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
    static V mk(int e) { int k = fd(e, KM); int m = e - k * KM; if constexpr (flip) return V(Enc<M>::mk(m), Enc<K>::mk(k)); else return V(Enc<K>::mk(k), Enc<M>::mk(m)); }
    static int un(V const& x) { if constexpr (flip) return Enc<K>::un(x.second) * KM + Enc<M>::un(x.first); else return Enc<K>::un(x.first) * KM + Enc<M>::un(x.second); }
    static K mkk(int k) { return Enc<K>::mk(k); }
    static M mkm(int m) { return Enc<M>::mk(m); }
    static int unm(M const& x) { return Enc<M>::un(x); }
    template <typename F> static int unf_min(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static int unf_max(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static void args(int v, int e, F&& f) {
        int k = fd(e, KM), m = e - k * KM;
        if constexpr (!F_SPELL) { V x = mk(e); auto const a = Enc<K>::mk(k); auto const b = Enc<M>::mk(m); if constexpr (flip) f(b, a); else f(a, b); }
        else switch (v % 6) {
            case 0: { V const x = mk(e); f(x); break; }
            case 1: { V x = mk(e); f(std::move(x)); break; }
            case 2: { V x = mk(e); auto const a = x.first; auto const b = x.second; f(a, b); break; }
            case 3: { V x = mk(e); f(std::move(x.first), std::move(x.second)); break; }
            case 4: { V x = mk(e); f(std::piecewise_construct, std::forward_as_tuple(x.first), std::forward_as_tuple(x.second)); break; }
            default: { V x = mk(e); f(x); }
        }
        (void)k; (void)m; (void)v;
    }
    static int proxy_shadow(int old, int op, int b) { int k = fd(old, KM); return k * KM + Plain<int>::proxy_new(old - k * KM, op, b); }
    static K const& key_ref(V const& v) { if constexpr (flip) return v.second; else return v.first; }
    static M const& mapped_ref(V const& v) { if constexpr (flip) return v.first; else return v.second; }
};
template <typename K_, typename M_, int KM_ = 1000> struct TupleOf : Base {
    using K = K_; using M = M_; using V = std::tuple<K_, M_>;
    static constexpr int KM = KM_, MAXV = KM_ - 1;
    static constexpr bool ARITH = std::is_arithmetic_v<M> && !SCALED;
    static constexpr char const *SUMF = "v", *MINF = "v", *MAXF = "v";
    static int fd(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
    static V mk(int e) { int k = fd(e, KM); return V(Enc<K>::mk(k), Enc<M>::mk(e - k * KM)); }
    static int un(V const& x) { return Enc<K>::un(std::get<0>(x)) * KM + Enc<M>::un(std::get<1>(x)); }
    static K mkk(int k) { return Enc<K>::mk(k); }
    static M mkm(int m) { return Enc<M>::mk(m); }
    static int unm(M const& x) { return Enc<M>::un(x); }
    template <typename F> static int unf_min(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static int unf_max(F const& f) { return Enc<std::decay_t<F>>::un(f); }
    template <typename F> static void args(int v, int e, F&& f) {
        if constexpr (!F_SPELL) { V x = mk(e); f(std::move(x)); }
        else switch (v % 3) {
            case 0: { V const x = mk(e); f(x); break; }
            case 1: { V x = mk(e); f(std::move(x)); break; }
            default: { V x = mk(e); f(std::get<0>(x), std::get<1>(x)); break; }
        }
    }
    static int proxy_shadow(int old, int op, int b) { int k = fd(old, KM); return k * KM + Plain<int>::proxy_new(old - k * KM, op, b); }
    static K const& key_ref(V const& v) { return std::get<0>(v); }
    static M const& mapped_ref(V const& v) { return std::get<1>(v); }
};
// extractors other than the library's
struct TenMinus { template <typename V> int operator()(V const& v) const { return 10 - static_cast<int>(v); } };     // field "t"
struct KeyPlusValue {   // field "s", from an element or from the arguments it is constructed from
    template <typename P> int operator()(P const& p) const { return static_cast<int>(std::get<0>(p)) + static_cast<int>(std::get<1>(p)); }
    template <typename A, typename B> int operator()(A const& a, B const& b) const { return static_cast<int>(a) + static_cast<int>(b); }
    template <typename... A, typename... B> int operator()(std::piecewise_construct_t, std::tuple<A...> const& a, std::tuple<B...> const& b) const { return static_cast<int>(std::get<0>(a)) + static_cast<int>(std::get<0>(b)); }
};
template <size_t i> using LongOf = bpptree::detail::WrappedCastingExtractor<bpptree::detail::PairExtractor<i>, long>;
} // namespace vx
#define VX_CONFIG(C) \
    vx::ExecI* vx::make_exec() { return new vx::Exec<C>(); }
