// Executor: drives the real library through its public API and records every call, its arguments and its results as
// one event per line, in the vocabulary of spec/Trace.tla.  The shadow sequences kept here only choose arguments that
// satisfy the documented preconditions; they are never used to judge a result - that is the specification's job.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "iface.hpp"
#include "bpptree/bpptree.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/summed.hpp"
#include "bpptree/min.hpp"
#include "bpptree/max.hpp"

// Which parts of the interface to compile in; a check asks for what it needs.
#ifndef VX_FEAT
#define VX_FEAT 0xff
#endif

namespace vx {
constexpr bool F_PROXY = VX_FEAT & 1, F_SPELL = VX_FEAT & 2, F_PERS = VX_FEAT & 4, F_ITED = VX_FEAT & 8,
    F_JUMP = VX_FEAT & 16, F_QRY = VX_FEAT & 32, F_FAIL = VX_FEAT & 64;

struct UpdaterThrew : std::runtime_error { UpdaterThrew() : std::runtime_error("updater") {} };

template <typename C>
struct Exec : ExecI {
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    using V = typename C::V;
    using TI = typename T::iterator;
    using TC = typename T::const_iterator;
    using TR = typename T::reverse_iterator;
    using TCR = typename T::const_reverse_iterator;
    using PI = typename P::iterator;
    using PC = typename P::const_iterator;
    using PR = typename P::reverse_iterator;
    using PCR = typename P::const_reverse_iterator;
    using AnyIt = std::variant<std::monostate, TI, TC, TR, TCR, PI, PC, PR, PCR>;

    struct H {
        std::unique_ptr<T> t;
        std::unique_ptr<P> p;
        std::vector<int> s;     // shadow
        bool live() const { return t || p; }
    };
    struct It {
        AnyIt it;
        int h = -1;
        int p = 0;              // shadow position
        bool live() const { return h >= 0; }
    };
    // a tree object on the heap; where it lives is the runtime's business
    template <typename X, typename... As> static std::unique_ptr<X> box(As&&... as) {
        heap.box = true;
        void* m = ::operator new(sizeof(X));
        heap.box = false;
        return std::unique_ptr<X>(new (m) X(std::forward<As>(as)...));
    }
    H hs[NH];
    It its[NI];
    Info info() const override { return C::info(); }
    bool live(int h) const override { return hs[h].live(); }
    bool is_t(int h) const override { return (bool)hs[h].t; }
    std::vector<int> const& shadow(int h) const override { return hs[h].s; }
    bool it_live(int it) const override { return its[it].live(); }
    int it_h(int it) const override { return its[it].h; }
    int it_p(int it) const override { return its[it].p; }
    int it_rev(int it) override { return rev_of(it); }

    // ------------------------------------------------------------------ helpers
    template <typename X> static constexpr bool is_rev() { return std::decay_t<X>::is_reversed; }
    int rev_of(int it) { int r = 0; visit_it(it, [&](auto& x) { r = is_rev<decltype(x)>() ? 1 : 0; }); return r; }
    template <typename F> void visit_it(int it, F&& f) {
        std::visit([&](auto& x) { if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) f(x); }, its[it].it);
    }
    // f(tree) with the tree as declared (mutable object)
    template <typename F> void with(int h, F&& f) { if (hs[h].t) f(*hs[h].t); else f(*hs[h].p); }
    template <typename F> void withc(int h, F&& f) { if (hs[h].t) f(std::as_const(*hs[h].t)); else f(std::as_const(*hs[h].p)); }

    // position of an iterator, found by walking the tree: index, size for end, -1 for rend, -2 if nowhere
    template <typename Tree, typename It>
    int pos_in(Tree const& t, It const& x, int n) {
        if (x == t.rend()) return -1;
        if constexpr (C::IDX) {
            if (n > 400) {
                int o = static_cast<int>(t.order(x));
                if (o == n) return x == t.end() ? n : -2;
                auto y = t.find_index(static_cast<typename C::SZ>(o));
                return x == y ? o : -2;
            }
        }
        auto y = t.begin();
        auto e = t.end();
        for (int j = 0; j <= n + 2; ++j) {
            if (x == y) return j;
            if (y == e) break;
            ++y;
        }
        return -2;
    }
    template <typename It> int pos_of(int h, It const& x) {
        int n = static_cast<int>(hs[h].s.size());
        constexpr bool of_t = std::is_same_v<It, TI> || std::is_same_v<It, TC> || std::is_same_v<It, TR> || std::is_same_v<It, TCR>;
        if constexpr (of_t) return hs[h].t ? pos_in(std::as_const(*hs[h].t), x, n) : -2;
        else return hs[h].p ? pos_in(std::as_const(*hs[h].p), x, n) : -2;
    }
    static V const& deref_const(V const& v) { return v; }

    int free_h() { for (int i = 0; i < NH; ++i) if (!hs[i].live()) return i; return -1; }
    void invalidate(int h, int except = -1) {
        for (int i = 0; i < NI; ++i) if (its[i].h == h && i != except) drop_it(i);
    }
    void drop_it(int i) { its[i].it = std::monostate{}; its[i].h = -1; }
    int keyof(int e) { return floordiv(e, C::KM); }
    static int floordiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
    static int floormod(int a, int b) { return a - b * floordiv(a, b); }
    bool kless(int a, int b) { return C::KDIR == 1 ? a < b : b < a; }
    int lb(std::vector<int> const& s, int k) {
        int lo = 0, hi = static_cast<int>(s.size());
        while (lo < hi) { int m = (lo + hi) / 2; if (kless(keyof(s[m]), k)) lo = m + 1; else hi = m; }
        return lo;
    }
    bool has(std::vector<int> const& s, int k) { int p = lb(s, k); return p < (int)s.size() && keyof(s[p]) == k; }

    Event ev(char const* o) { return Event(o); }

    // ------------------------------------------------------------------ shadow edits
    static int bulk_mod(Step const& a) { return a.j > 0 ? a.j : 1 << 30; }
    static int bulk_elem(Step const& a, int j) { return a.e + j * a.d % bulk_mod(a); }
    void shadow_edit(std::vector<int>& s, Step const& a) {
        auto const& o = a.op;
        if (o == "push_back") s.push_back(a.e);
        else if (o == "push_front") s.insert(s.begin(), a.e);
        else if (o == "bulk_back") { std::vector<int> more; for (int j = 0; j < a.n; ++j) more.push_back(bulk_elem(a, j)); s.insert(s.end() - a.i, more.begin(), more.end()); }
        else if (o == "pop_back") s.pop_back();
        else if (o == "pop_front") s.erase(s.begin());
        else if (o == "clear") s.clear();
        else if (o == "ins_at") s.insert(s.begin() + a.i, a.e);
        else if (o == "era_at") s.erase(s.begin() + a.i);
        else if (o == "set_at" || o == "set_rep") s[a.i] = a.e;
        else if (o == "upd_at") s[a.i] += a.d;
        else if (o == "insv" || o == "ioa" || o == "asv") {
            int p = lb(s, keyof(a.e));
            if (has(s, keyof(a.e))) { if (o != "insv") s[p] = a.e; }
            else if (o != "asv") s.insert(s.begin() + p, a.e);
        }
        else if (o == "erk") { if (has(s, a.k)) s.erase(s.begin() + lb(s, a.k)); }
        else if (o == "upk") { if (has(s, a.k)) s[lb(s, a.k)] += a.d; }
    }
    static bool structural(std::string const& o) {
        return !(o == "set_at" || o == "set_rep" || o == "upd_at" || o == "asv" || o == "upk");
    }

    // ------------------------------------------------------------------ edits on a transient or a persistent tree
    // returns std::monostate-like int for transient, the new tree for persistent
    template <typename Tree>
    auto do_edit(Tree& t, Step const& a, Event& E) {
        constexpr bool per = std::is_same_v<std::decay_t<Tree>, P>;
        std::optional<std::conditional_t<per, P, int>> out;
        auto keep = [&](auto&& f) { if constexpr (per) out.emplace(f()); else f(); };
        auto const& o = a.op;
        Timed lib;      // allocations between construction and stop() belong to the library call
        if (o == "push_back") { C::args(a.v / 2, a.e, [&](auto&&... xs) { lib.start(); keep([&] { if (a.v % 2) return t.push_back(std::forward<decltype(xs)>(xs)...); else return t.emplace_back(std::forward<decltype(xs)>(xs)...); }); lib.stop(); }); }
        else if (o == "push_front") { C::args(a.v / 2, a.e, [&](auto&&... xs) { lib.start(); keep([&] { if (a.v % 2) return t.push_front(std::forward<decltype(xs)>(xs)...); else return t.emplace_front(std::forward<decltype(xs)>(xs)...); }); lib.stop(); }); }
        else if (o == "bulk_back") {
            if constexpr (per) { E.fatal("bulk on persistent"); }
            else {
                if (a.i == 0) for (int j = 0; j < a.n; ++j) C::args(0, bulk_elem(a, j), [&](auto&&... xs) { lib.start(); t.push_back(std::forward<decltype(xs)>(xs)...); lib.stop(); });
                else {      // each before the last a.i elements
                    auto it = t.end(); it -= a.i;
                    for (int j = 0; j < a.n; ++j) { C::args(0, bulk_elem(a, j), [&](auto&&... xs) { lib.start(); t.insert(it, std::forward<decltype(xs)>(xs)...); lib.stop(); }); ++it; }
                }
            }
        }
        else if (o == "pop_back") { lib.start(); if constexpr (per) { out.emplace(t.pop_back()); lib.stop(); } else { V r = t.pop_back(); lib.stop(); E.num("r", C::un(r)); } }
        else if (o == "pop_front") { lib.start(); if constexpr (per) { out.emplace(t.pop_front()); lib.stop(); } else { V r = t.pop_front(); lib.stop(); E.num("r", C::un(r)); } }
        else if (o == "set_rep") {      // the same element assigned many times over
            if constexpr (per) { E.fatal("repeated assignment on persistent"); }
            else {
                V v = C::mk(a.e);
                auto it = t.begin();
                it += a.i;
                lib.start();
                for (int j = 0; j < a.n; ++j) { if constexpr (C::IDX) { if (a.v % 2) { t.assign_index(static_cast<typename C::SZ>(a.i), v); continue; } } t.assign(it, v); }
                lib.stop();
            }
        }
        else if (o == "clear") { if constexpr (!per) { lib.start(); t.clear(); lib.stop(); } }
        else if (o == "ins_at" || o == "era_at" || o == "set_at" || o == "upd_at") {
            if constexpr (C::IDX) {
                using SZ = typename C::SZ;
                SZ i = static_cast<SZ>(a.i);
                if (o == "ins_at") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.insert_index(i, std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                else if (o == "era_at") { lib.start(); keep([&] { return t.erase_index(i); }); lib.stop(); }
                else if (o == "set_at") {
                    if (!per && a.v >= 8) { if constexpr (!per && !C::ORD) { V x = C::mk(a.e); lib.start(); t[i] = x; lib.stop(); } else if constexpr (!per) { V x = C::mk(a.e); lib.start(); t.assign_index(i, x); lib.stop(); } }
                    else C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.assign_index(i, std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                }
                else { lib.start(); keep([&] { return t.update_index(i, [&](V const& x) { lib.stop(); V y = C::mk(C::un(x) + a.d); lib.start(); return y; }); }); lib.stop(); }
            } else {
                auto it = t.begin();
                it += a.i;
                if (o == "ins_at") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.insert(it, std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                else if (o == "era_at") { lib.start(); keep([&] { return t.erase(it); }); lib.stop(); }
                else if (o == "set_at") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.assign(it, std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                else { lib.start(); keep([&] { return t.update(it, [&](V const& x) { lib.stop(); V y = C::mk(C::un(x) + a.d); lib.start(); return y; }); }); lib.stop(); }
            }
        }
        else if (o == "insv" || o == "ioa" || o == "asv" || o == "erk" || o == "upk" || o == "upkbad" || o == "proxybad") {
            if constexpr (C::ORD) {
                if (o == "insv") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.insert_v(std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                else if (o == "asv") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.assign_v(std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                else if (o == "ioa") {
                    if constexpr (!per && !C::IDX && C::HASPROXY) {
                        if (a.v >= 8) {
                            auto k = C::mkk(keyof(a.e));
                            if constexpr (C::MAPPED) {
                                auto m = C::mkm(floormod(a.e, C::KM));
                                if (a.v % 3 == 0) { lib.start(); t[k] = m; lib.stop(); }
                                else if (a.v % 3 == 1) { V x = C::mk(a.e); lib.start(); t[k] = x; lib.stop(); }
                                else { V x = C::mk(a.e); lib.start(); t[k] = std::move(x); lib.stop(); }
                            } else { V x = C::mk(a.e); lib.start(); t[k] = x; lib.stop(); }
                            return out;
                        }
                    }
                    C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); keep([&] { return t.insert_or_assign(std::forward<decltype(xs)>(xs)...); }); lib.stop(); });
                }
                else if (o == "erk") { auto k = C::mkk(a.k); lib.start(); keep([&] { return t.erase_key(k); }); lib.stop(); }
                else if (o == "upk") { if constexpr (C::HASUPK) { auto k = C::mkk(a.k); lib.start(); keep([&] { return t.update_key(k, [&](auto const& m) { lib.stop(); auto y = C::mkm(C::unm(m) + a.d); lib.start(); return y; }); }); lib.stop(); } }
                else if (o == "upkbad") { if constexpr (!C::MAPPED && C::HASUPK) { auto k = C::mkk(a.k); lib.start(); keep([&] { return t.update_key(k, [&](auto const& m) { return C::mkm(C::unm(m) + a.d); }); }); lib.stop(); } }
                else { if constexpr (!per && !C::IDX && C::HASPROXY) { auto k = C::mkk(a.k); V x = C::mk(a.e); lib.start(); if (a.v % 2) t[k] = std::move(x); else t[k] = x; lib.stop(); } }
            }
        }
        return out;
    }

    // updater that throws
    template <typename Tree>
    void do_throwing_update(Tree& t, Step const& a) {
        constexpr bool per = std::is_same_v<std::decay_t<Tree>, P>;
        auto sink = [](auto&& f) { if constexpr (per) (void)f(); else f(); };
        if (a.how == "key") {
            if constexpr (C::ORD && C::HASUPK) { auto k = C::mkk(a.k); sink([&] { return t.update_key(k, [&](auto const& m) -> std::decay_t<decltype(m)> { throw UpdaterThrew(); }); }); }
        } else if (a.how == "idx") {
            if constexpr (C::IDX) sink([&] { return t.update_index(static_cast<typename C::SZ>(a.i), [&](V const&) -> V { throw UpdaterThrew(); }); });
        } else {
            auto it = t.begin();
            it += a.i;
            sink([&] { return t.update(it, [&](V const&) -> V { throw UpdaterThrew(); }); });
        }
    }

    void log_args(Event& E, Step const& a) {
        auto const& o = a.op;
        E.str("op", o);
        if (o == "push_back" || o == "push_front" || o == "insv" || o == "ioa" || o == "asv") E.num("e", a.e);
        else if (o == "ins_at" || o == "set_at") { E.num("i", a.i); E.num("e", a.e); }
        else if (o == "set_rep") { E.num("i", a.i); E.num("e", a.e); E.num("n", a.n); }
        else if (o == "era_at") E.num("i", a.i);
        else if (o == "upd_at") { E.num("i", a.i); E.num("d", a.d); }
        else if (o == "erk") E.num("k", a.k);
        else if (o == "upk" || o == "upkbad") { E.num("k", a.k); E.num("d", a.d); }
        else if (o == "proxybad") { E.num("k", a.k); E.num("e", a.e); }
        else if (o == "bulk_back") { E.num("e", a.e); E.num("n", a.n); E.num("d", a.d); E.num("off", a.i); E.num("mod", bulk_mod(a)); }
        else if (o == "it_ins" || o == "it_set") E.num("e", a.e);
        else if (o == "it_upd") E.num("d", a.d);
        E.num("v", a.v);
    }
    void log_size(Event& E, int h) { withc(h, [&](auto const& t) { E.num("sz", (int)t.size()); E.num("dp", (int)t.depth()); }); }

    // ------------------------------------------------------------------ proxies
    static constexpr int NPROXY = 15;
    static char const* proxy_op(int i) {
        static char const* ops[] = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "++x", "--x", "x++", "x--", "="};
        return ops[i];
    }
    // applies operator number op with operand b to the proxy; returns the value of the expression
    template <typename PR_>
    int proxy_apply(PR_&& x, int op, int b) {
        if constexpr (C::ARITH) {
            using M = typename C::M;
            M m = static_cast<M>(b);
            switch (op) {
                case 0: return C::unm((x += m).get());
                case 1: return C::unm((x -= m).get());
                case 2: return C::unm((x *= m).get());
                case 3: return C::unm((x /= m).get());
                case 4: return C::unm((x %= m).get());
                case 5: return C::unm((x &= m).get());
                case 6: return C::unm((x |= m).get());
                case 7: return C::unm((x ^= m).get());
                case 8: return C::unm((x <<= m).get());
                case 9: return C::unm((x >>= m).get());
                case 10: return C::unm((++x).get());
                case 11: return C::unm((--x).get());
                case 12: return C::unm(x++);
                case 13: return C::unm(x--);
                default: return C::unm((x = m).get());
            }
        } else return 0;
    }
    static char const* bin_op(int i) {
        static char const* ops[] = {"==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};
        return ops[i];
    }
    template <typename A, typename B>
    int bin_apply(A const& a, B const& b, int op) {
        if constexpr (C::ARITH) {
            switch (op) {
                case 0: return a == b; case 1: if constexpr (C::BOX) return 0; else return a != b; case 2: return a < b; case 3: return a > b;
                case 4: return a <= b; case 5: return a >= b;
                case 6: return (int)(a + b); case 7: return (int)(a - b); case 8: return (int)(a * b);
                case 9: return (int)(a / b); case 10: return (int)(a % b); case 11: return (int)(a & b);
                case 12: return (int)(a | b); case 13: return (int)(a ^ b); case 14: return (int)(a << b); default: return (int)(a >> b);
            }
        } else return 0;
    }
    // calls f(proxy) with a proxy to position i of transient h; kind 0 iterator, 1 reverse iterator, 2 index, 3 key
    template <typename F>
    void with_proxy(T& t, std::vector<int> const& s, int i, int kind, F&& f) {
        if constexpr (C::ORD && C::MAPPED) {
            if constexpr (!C::IDX && C::HASPROXY) { auto k = C::mkk(keyof(s[i])); f(t[k]); }
        } else if constexpr (!C::ORD) {
            if (kind == 0) { auto it = t.begin(); it += i; f(*it); }
            else if (kind == 1) { auto it = t.rbegin(); it += (int)s.size() - 1 - i; f(*it); }
            else if constexpr (C::IDX) { typename C::SZ ix = static_cast<typename C::SZ>(i); f(t[ix]); }
            else { auto it = t.end(); it -= (int)s.size() - i; f(*it); }
        }
    }

    // ------------------------------------------------------------------ observations
    // way: 0 begin..end, 1 as const, 2 rbegin..rend, 3 crbegin..crend, 4 backwards from end, 5 range for, 6 rend backwards
    template <typename It> static int elem(It& x) {     // reads through * for const iterators, through proxies otherwise
        V const& v = *x;
        return C::un(v);
    }
    void obs_seq(int h, int way) override {
        Event E = ev("Seq");
        E.num("h", h); E.num("w", way); E.num("rv", way == 2 || way == 3 || way == 4 ? 1 : 0);
        int cap = (int)hs[h].s.size() + 3;
        std::vector<int> out;
        with(h, [&](auto& t) {
            auto const& ct = t;
            switch (way) {
                case 0: { auto e = t.end(); for (auto x = t.begin(); x != e && (int)out.size() < cap; ++x) out.push_back(elem(x)); break; }
                case 1: { auto e = ct.end(); for (auto x = ct.begin(); x != e && (int)out.size() < cap; ++x) out.push_back(elem(x)); break; }
                case 2: { auto e = t.rend(); for (auto x = t.rbegin(); x != e && (int)out.size() < cap; ++x) out.push_back(elem(x)); break; }
                case 3: { auto e = ct.crend(); for (auto x = ct.crbegin(); x != e && (int)out.size() < cap; x++) out.push_back(elem(x)); break; }
                case 4: { auto x = ct.cend(); --x; while (x.valid() && (int)out.size() < cap) { out.push_back(C::un(*x)); --x; } break; }
                case 5: { for (V const& v : ct) { out.push_back(C::un(v)); if ((int)out.size() >= cap) break; } break; }
                default: { auto x = ct.rend(); --x; while (x.valid() && (int)out.size() < cap) { out.push_back(C::un(x.get())); x--; } break; }
            }
            E.num("sz", (int)ct.size()); E.num("em", ct.empty() ? 1 : 0); E.num("dp", (int)ct.depth());
            if (!hs[h].s.empty()) { E.num("f", C::un(ct.front())); E.num("b", C::un(ct.back())); }
        });
        E.arr("s", out);
        E.done();
    }
    template <typename F> void for_positions(int n, int maxn, F&& f) {
        if (n <= maxn) for (int i = 0; i < n; ++i) f(i);
        else for (int j = 0; j < maxn; ++j) f(j < 4 ? j : j < 8 ? n - 1 - (j - 4) : rng() % n);
    }
    void obs_idx(int h, int maxn) override {
        if constexpr (F_QRY && C::IDX) {
            using SZ = typename C::SZ;
            Event E = ev("Idx"); E.num("h", h);
            int n = (int)hs[h].s.size();
            std::vector<std::vector<int>> rows;
            std::vector<int> endrow;
            with(h, [&](auto& t) {
                auto const& ct = t;
                for_positions(n, maxn, [&](int i) {
                    SZ ix = static_cast<SZ>(i);
                    int v2;
                    if constexpr (!C::ORD) v2 = C::un(ct[ix]); else v2 = C::un(ct.at_index(ix));
                    auto a = t.find_index(ix); auto b = ct.find_index(ix); auto c = ct.find_index_const(ix);
                    // a reverse iterator at the same position
                    auto r = ct.rbegin(); r += n - 1 - i;
                    auto r2 = t.rbegin() + (n - 1 - i);
                    rows.push_back({i, C::un(ct.at_index(ix)), v2, pos_in(ct, a, n), C::un(b.get()), C::un(*c), (int)ct.order(a), (int)ct.order(b), (int)ct.order(r), (int)ct.order(r2)});
                });
                auto a = t.find_index(static_cast<SZ>(n)); auto b = ct.find_index(static_cast<SZ>(n));
                endrow = {a == t.end() ? 1 : 0, b == ct.end() ? 1 : 0, (int)ct.order(t.end()), (int)ct.order(ct.end())};
            });
            E.arr2("at", rows); E.arr("end", endrow); E.done();
        }
    }
    void obs_key(int h, std::vector<int> const& probes) override {
        if constexpr (F_QRY && C::ORD) {
            Event E = ev("Key"); E.num("h", h);
            int n = (int)hs[h].s.size();
            std::vector<std::vector<int>> rows;
            with(h, [&](auto& t) {
                auto const& ct = t;
                for (int kk : probes) {
                    auto k = C::mkk(kk);
                    auto f1 = t.find(k); auto f2 = ct.find(k); auto f3 = ct.find_const(k);
                    auto l1 = t.lower_bound(k); auto l2 = ct.lower_bound(k); auto l3 = ct.lower_bound_const(k);
                    auto u1 = t.upper_bound(k); auto u2 = ct.upper_bound(k); auto u3 = ct.upper_bound_const(k);
                    std::vector<int> row{kk, ct.contains(k) ? 1 : 0, pos_in(ct, f1, n), pos_in(ct, f2, n), f3 == f2 ? 1 : 0,
                        pos_in(ct, l1, n), pos_in(ct, l2, n), l3 == l2 ? 1 : 0,
                        pos_in(ct, u1, n), pos_in(ct, u2, n), u3 == u2 ? 1 : 0};
                    // the iterators found must be usable: read through them
                    row.push_back(f1.valid() ? C::un(f1.get()) : -1); row.push_back(f2.valid() ? C::un(*f2) : -1);
                    row.push_back(l1.valid() ? C::un(l1.get()) : -1); row.push_back(u1.valid() ? C::un(u1.get()) : -1);
                    int at = -1, sub = -1;
                    if (has(hs[h].s, kk)) {
                        at = C::unm(ct.at_key(k));
                        if constexpr (!C::IDX) {
                            sub = C::unm(ct[k]);
                            if constexpr (std::is_same_v<std::decay_t<decltype(t)>, T> && C::HASPROXY) { if (C::unm(t[k].get()) != sub) sub = -3; }
                        } else sub = at;
                    } else if constexpr (C::SAFE) {
                        try { (void)ct.at_key(k); at = -4; } catch (std::logic_error const&) { at = -2; }
                        sub = at;
                    }
                    row.push_back(at); row.push_back(sub);
                    rows.push_back(row);
                }
            });
            E.arr2("q", rows); E.done();
        }
    }
    void obs_sum(int h, int maxn, std::vector<int> const& targets) override {
        if constexpr (F_QRY && C::SUM) {
            Event E = ev("Sum"); E.num("h", h);
            int n = (int)hs[h].s.size();
            std::vector<std::vector<int>> inc, exc, slb;
            with(h, [&](auto& t) {
                auto const& ct = t;
                E.num("t", C::uns(ct.sum()));
                auto put = [&](auto const& x, int p) {
                    if (p < n) inc.push_back({p, C::uns(ct.sum_inclusive(x))});
                    exc.push_back({p, C::uns(ct.sum_exclusive(x))});
                };
                if (n <= maxn) {
                    auto x = ct.begin();
                    for (int p = 0; p <= n; ++p) { put(x, p); if (p < n) ++x; }
                    auto y = t.rbegin();
                    for (int p = n - 1; p >= 0; --p) { if (p % 3 == 0) put(y, p); ++y; }
                } else {
                    for_positions(n, maxn, [&](int p) { auto x = t.begin(); x += p; put(x, p); });
                    put(t.end(), n);
                }
                for (int tg : targets) {
                    auto a = t.sum_lower_bound(C::template mks<typename C::SumT>(tg));
                    auto b = ct.sum_lower_bound(C::template mks<typename C::SumT>(tg));
                    auto c = ct.sum_lower_bound_const(C::template mks<typename C::SumT>(tg));
                    slb.push_back({tg, pos_in(ct, a, n), pos_in(ct, b, n), c == b ? 1 : 0, a.valid() ? C::un(a.get()) : -1});
                }
            });
            E.arr2("inc", inc); E.arr2("exc", exc); E.arr2("slb", slb); E.done();
        }
    }
    // ranges: list of (a, b, kind): inclusive positions; kind 0 iterator 1 const 2 reverse 3 const reverse
    void obs_mm(int h, std::vector<std::array<int, 3>> const& ranges) override {
        if constexpr (F_QRY && (C::MIN || C::MAX)) {
            int n = (int)hs[h].s.size();
            if (n == 0) return;
            Event E = ev("MM"); E.num("h", h);
            std::vector<std::vector<int>> rows;
            std::vector<int> whole(8, 0);
            with(h, [&](auto& t) {
                auto const& ct = t;
                if constexpr (C::MIN) { whole[0] = C::unf_min(ct.min()); auto a = t.min_element(); auto b = ct.min_element(); auto c = ct.min_element_const();
                    whole[1] = pos_in(ct, a, n); whole[2] = pos_in(ct, b, n); whole[3] = pos_in(ct, c, n); if (whole[1] >= 0 && whole[1] < n && (C::un(a.get()) != C::un(b.get()) || C::un(*c) != C::un(*b))) whole[3] = -5; }
                if constexpr (C::MAX) { whole[4] = C::unf_max(ct.max()); auto a = t.max_element(); auto b = ct.max_element(); auto c = ct.max_element_const();
                    whole[5] = pos_in(ct, a, n); whole[6] = pos_in(ct, b, n); whole[7] = pos_in(ct, c, n); if (whole[5] >= 0 && whole[5] < n && (C::un(a.get()) != C::un(b.get()) || C::un(*c) != C::un(*b))) whole[7] = -5; }
                auto range = [&](auto b, auto e, int lo, int hi, int kind) {
                    std::vector<int> r{lo, hi, kind, 0, -2, -2, 0, -2, -2, 0, 0};
                    if constexpr (C::MIN) { r[3] = C::unf_min(ct.min(b, e)); auto m = t.min_element(b, e); r[4] = pos_in(ct, m, n); auto m2 = ct.min_element(b, e); r[5] = pos_in(ct, m2, n); r[9] = m2.valid() ? C::un(*m2) : -1; }
                    if constexpr (C::MAX) { r[6] = C::unf_max(ct.max(b, e)); auto m = t.max_element(b, e); r[7] = pos_in(ct, m, n); auto m2 = ct.max_element_const(b, e); r[8] = pos_in(ct, m2, n); r[10] = m2.valid() ? C::un(*m2) : -1; }
                    rows.push_back(r);
                };
                for (auto& [a, b, kind] : ranges) {
                    if (kind == 0) range(t.begin() + a, t.begin() + (b + 1), a, b, kind);
                    else if (kind == 1) range(ct.begin() + a, ct.begin() + (b + 1), a, b, kind);
                    else if (kind == 2) range(t.rbegin() + (n - 1 - b), t.rbegin() + (n - a), a, b, kind);
                    else range(ct.rbegin() + (n - 1 - b), ct.rbegin() + (n - a), a, b, kind);
                }
            });
            E.arr("w", whole); E.arr2("rg", rows); E.done();
        }
    }
    // jumps: (p, d, kind, way): from position p advance by d; way 0 +=, 1 +, 2 -=, 3 -, 4 repeated ++/--, 5 post-inc/dec
    void obs_jump(int h, std::vector<std::array<int, 4>> const& js) override {
        if constexpr (!F_JUMP) return; else {
        Event E = ev("Jump"); E.num("h", h);
        int n = (int)hs[h].s.size();
        std::vector<std::vector<int>> rows;
        with(h, [&](auto& t) {
            auto const& ct = t;
            auto run = [&](auto x, int p, int d, int kind, int way) {
                // x is at begin (forward) or rbegin (reverse); first move it to p
                constexpr bool rev = is_rev<decltype(x)>();
                if (p == -1 || p == n) {    // reach the ends by name
                    if constexpr (rev) { if (p == -1) { x += n + 1; } else { x -= 1; } }
                    else { if (p == -1) x -= 1; else x += n; }
                } else x += rev ? n - 1 - p : p;
                int p0 = pos_in(ct, x, n);
                switch (way) {
                    case 0: x += d; break;
                    case 1: { auto y = x + d; x = y; break; }
                    case 2: x -= -d; break;
                    case 3: { auto y = x - (-d); x = y; break; }
                    case 4: for (int c = 0; c < std::abs(d); ++c) { if (d > 0) ++x; else --x; } break;
                    case 5: for (int c = 0; c < std::abs(d); ++c) { if (d > 0) x++; else x--; } break;
                    default: { if constexpr (!rev) std::advance(x, d); else x += d; }
                }
                int q = pos_in(ct, x, n);
                bool ok = x.valid();
                rows.push_back({p, p0, d, rev ? 1 : 0, kind, way, q, ok ? 1 : 0, ok ? C::un(x.get()) : -1, ok ? C::un(*x.operator->()) : -1});
            };
            for (auto& [p, d, kind, way] : js) {
                if (kind == 0) run(t.begin(), p, d, kind, way);
                else if (kind == 1) run(ct.cbegin(), p, d, kind, way);
                else if (kind == 2) run(t.rbegin(), p, d, kind, way);
                else run(ct.crbegin(), p, d, kind, way);
            }
        });
        E.arr2("j", rows); E.done(); }
    }
    void obs_cmp(int h, std::vector<std::array<int, 3>> const& cs) override {
        if constexpr (!F_JUMP) return; else {
        Event E = ev("Cmp"); E.num("h", h);
        int n = (int)hs[h].s.size();
        std::vector<std::vector<int>> rows;
        with(h, [&](auto& t) {
            auto const& ct = t;
            auto cmp = [&](auto const& a, auto const& b, int p, int q, int r, int kind) {
                int diff = 0;
                if constexpr (C::IDX) { if ((p >= 0 && q >= 0) || (r == 1)) diff = (int)(b - a); }
                rows.push_back({p, q, r, kind, a < b, a <= b, a > b, a >= b, a == b, a != b, diff});
            };
            auto place = [&](auto x, int p) {
                constexpr bool rev = is_rev<decltype(x)>();
                if constexpr (rev) { if (p == n) { --x; return x; } x += n - 1 - p; return x; }
                else { if (p == -1) { --x; return x; } x += p; return x; }
            };
            for (auto& [p, q, kind] : cs) {
                switch (kind) {
                    case 0: cmp(place(t.begin(), p), place(t.begin(), q), p, q, 0, kind); break;
                    case 1: cmp(place(ct.begin(), p), place(t.begin(), q), p, q, 0, kind); break;
                    case 2: cmp(place(t.rbegin(), p), place(t.rbegin(), q), p, q, 1, kind); break;
                    case 3: cmp(place(ct.crbegin(), p), place(t.rbegin(), q), p, q, 1, kind); break;
                    default: {  // equality across directions and constness
                        auto a = place(t.begin(), p); auto b = place(ct.crbegin(), q);
                        rows.push_back({p, q, 2, kind, 0, 0, 0, 0, a == b, a != b, 0}); break; }
                }
            }
        });
        E.num("ix", C::IDX ? 1 : 0);
        E.arr2("c", rows); E.done(); }
    }
    // iterators of different trees (of the same or of the other form) are never equal; ordering them is reported
    void obs_alien(int h, int g) override {
        Event E = ev("Alien"); E.num("h", h); E.num("g", g);
        std::vector<int> r;
        if (hs[h].t && hs[g].t) {
            T& a = *hs[h].t; T& b = *hs[g].t;
            r = {a.begin() == b.begin(), a.end() == b.end(), a.begin() != b.begin(), a.rend() == b.rend()};
            if constexpr (C::SAFE) { try { bool x = a.begin() < b.begin(); (void)x; r.push_back(0); } catch (std::logic_error const&) { r.push_back(1); } }
        } else if (hs[h].p && hs[g].p) {
            P& a = *hs[h].p; P& b = *hs[g].p;
            r = {a.begin() == b.begin(), a.end() == b.end(), a.begin() != b.begin(), a.rend() == b.rend()};
            if constexpr (C::SAFE) { try { bool x = a.begin() < b.begin(); (void)x; r.push_back(0); } catch (std::logic_error const&) { r.push_back(1); } }
        } else return;
        E.arr("r", r); E.done();
    }
    // asking an empty tree for its extreme is reported when safety checks are on
    void obs_emptymm(int h) override {
        if constexpr (C::SAFE && (C::MIN || C::MAX)) {
            if (!hs[h].s.empty()) return;
            std::vector<int> r;
            with(h, [&](auto& t) {
                auto const& ct = t;
                auto probe = [&](auto&& f) { try { f(); r.push_back(0); } catch (std::out_of_range const&) { r.push_back(1); } };
                if constexpr (C::MIN) { probe([&] { (void)ct.min(); }); probe([&] { (void)t.min_element(); }); probe([&] { (void)ct.min_element(); }); }
                if constexpr (C::MAX) { probe([&] { (void)ct.max(); }); probe([&] { (void)t.max_element(); }); probe([&] { (void)ct.max_element(); }); }
            });
            Event E = ev("EmptyMM"); E.num("h", h); E.arr("r", r); E.done();
        }
    }
    void obs_lim(int h) override {
        Event E = ev("Lim"); E.num("h", h);
        withc(h, [&](auto const& t) {
            E.num("sz", (int)t.size()); E.num("dp", (int)t.depth()); E.num("md", (int)t.max_depth());
            { std::vector<int> ds; for (size_t m = t.max_size(); m; m /= 10) ds.push_back((int)(m % 10)); E.arr("ms", ds); }
        });
        E.done();
    }
    void log_it(Event& E, int it) {
        visit_it(it, [&](auto& x) {
            int h = its[it].h;
            bool ok = x.valid();
            E.num("p", pos_of(h, x)); E.num("ok", ok ? 1 : 0);
            if (ok) { E.num("val", C::un(x.get())); E.num("val2", C::un(*x.operator->())); }
        });
    }
    void obs_it(int it) override {
        if (!its[it].live()) return;
        Event E = ev("IO"); E.num("it", it);
        log_it(E, it);
        E.done();
    }

    // ------------------------------------------------------------------ one step
    // returns false if the step does not apply to this configuration or state (nothing was done, nothing is logged)
    static bool may_grow(std::string const& o) {
        return o == "push_back" || o == "push_front" || o == "ins_at" || o == "insv" || o == "ioa" || o == "it_ins" || o == "alias" || o == "bulk_back";
    }
    // no room for another level: inserting might need one (which is not supported, see KNOWN_FINDINGS)
    bool at_limit(int h) { int r = 0; if (hs[h].live()) withc(h, [&](auto const& t) { r = t.depth() >= t.max_depth(); }); return r; }
    bool step(Step const& a) override {
        auto const& o = a.op;
        set_current(o.c_str());
        if (!a.force && may_grow(o) && at_limit(o == "it_ins" ? its[a.it].h : a.h)) return false;
        if (o == "new") {
            if (hs[a.h].live()) return false;
            Event E = ev("New"); E.num("h", a.h); E.str("k", a.how);
            if (a.how == "T") hs[a.h].t = box<T>(); else hs[a.h].p = box<P>();
            hs[a.h].s.clear();
            E.done();
            return true;
        }
        if (o == "drv" || o == "drvm") return step_derive(a);
        if (o == "asg" || o == "asgm" || o == "swp") return step_assign(a);
        if (o == "del") {
            if (!hs[a.h].live()) return false;
            invalidate(a.h);
            Event E = ev("Del"); E.num("h", a.h);
            Timed lib; lib.start();
            hs[a.h].t.reset(); hs[a.h].p.reset();
            lib.stop();
            hs[a.h].s.clear();
            E.al(lib); E.done();
            return true;
        }
        if (o == "mk") return step_mk(a);
        if (o == "adv") {
            if (!its[a.it].live()) return false;
            Event E = ev("Adv"); E.num("it", a.it); E.num("n", a.n); E.num("v", a.v);
            Timed lib; lib.start();
            visit_it(a.it, [&](auto& x) {
                if (a.n == 1 && a.v == 1) ++x; else if (a.n == -1 && a.v == 1) --x;
                else if (a.n == 1 && a.v == 2) x++; else if (a.n == -1 && a.v == 2) x--;
                else if (a.v == 3) x -= -a.n; else if (a.v == 4) x = x + a.n; else x += a.n;
            });
            lib.stop();
            int n = (int)hs[its[a.it].h].s.size();
            int q = its[a.it].p + (rev_of(a.it) ? -a.n : a.n);
            its[a.it].p = std::max(-1, std::min(n, q));
            log_it(E, a.it); E.al(lib); E.done();
            return true;
        }
        if (o == "cpit") {
            if (!its[a.it].live()) return false;
            Event E = ev("CpIt"); E.num("it", a.it); E.num("jt", a.jt);
            if (a.it != a.jt) its[a.jt] = its[a.it];
            log_it(E, a.jt); E.done();
            return true;
        }
        if (o == "drit") {
            if (!its[a.it].live()) return false;
            Event E = ev("DrIt"); E.num("it", a.it); drop_it(a.it); E.done();
            return true;
        }
        if (o == "it_ins" || o == "it_era" || o == "it_set" || o == "it_upd") return step_it_edit(a);
        if (o == "px") return step_proxy(a);
        if (o == "pxq") return step_proxy_query(a);
        if (o == "pxs") return step_proxy_swap(a);
        if (o == "alg") return step_alg(a);
        if (o == "alias") return step_alias(a);
        if (o == "throw") return step_throw(a);
        return step_edit(a);
    }

    // 1: the element before position p lies in the same node as it, 2: the one after it does
    int neighbours(int h, int p) {
        int r = 0, n = (int)hs[h].s.size();
        if (p < 0 || p >= n) return 0;
        withc(h, [&](auto const& t) {
            auto x = t.begin();
            x += p;
            V const* a = &x.get();
            if (p > 0) { auto y = x; --y; if (&y.get() + 1 == a) r |= 1; }
            if (p + 1 < n) { ++x; if (a + 1 == &x.get()) r |= 2; }
        });
        return r;
    }
    // where the edit is going to be, or -1
    int place_of(std::vector<int> const& s, Step const& a) {
        auto const& o = a.op;
        if (o == "push_back") return (int)s.size();
        if (o == "pop_back") return (int)s.size() - 1;
        if (o == "push_front" || o == "pop_front") return 0;
        if (o == "ins_at" || o == "era_at" || o == "set_at" || o == "upd_at" || o == "set_rep") return a.i;
        if (o == "insv" || o == "ioa" || o == "asv") return lb(s, keyof(a.e));
        if (o == "erk" || o == "upk") return lb(s, a.k);
        return -1;
    }
    static bool erases(std::string const& o) { return o == "pop_back" || o == "pop_front" || o == "era_at" || o == "erk" || o == "it_era"; }
    bool step_edit(Step const& a) {
        H& x = hs[a.h];
        if (!x.live()) return false;
        bool keyed = a.op == "insv" || a.op == "ioa" || a.op == "asv" || a.op == "erk" || a.op == "upk" || a.op == "upkbad" || a.op == "proxybad";
        if (keyed && !C::ORD) return false;
        if ((a.op == "upk" || a.op == "upkbad") && !C::HASUPK) return false;
        if (a.op == "upkbad" && (!C::SAFE || C::MAPPED)) return false;
        if (a.op == "proxybad" && (!C::SAFE || C::IDX || !C::HASPROXY || !C::MAPPED || x.p)) return false;
        if (x.p && (a.op == "clear" || a.op == "bulk_back" || a.op == "set_rep")) return false;
        int xflag = 0;
        if (x.t) {
            Event E = ev("E"); E.num("h", a.h); log_args(E, a);
            AllocCount ac;
            int at = place_of(x.s, a), nb = erases(a.op) ? neighbours(a.h, at) : 0;
            E.num("d0", (int)x.t->depth());
            try { (void)do_edit(*x.t, a, E); } catch (std::logic_error const&) { xflag = 1; Timed::off(); }
            E.num("al", ac.get());
            if (!xflag) { shadow_edit(x.s, a); if (structural(a.op)) invalidate(a.h); }
            if (!xflag && !erases(a.op)) nb = neighbours(a.h, at);
            E.num("nb", nb); E.num("x", xflag); log_size(E, a.h); E.done();
        } else if constexpr (F_PERS) {
            if (hs[a.g].live()) return false;
            Event E = ev("PE"); E.num("h", a.h); E.num("g", a.g); log_args(E, a);
            AllocCount ac;
            int d0 = (int)x.p->depth();
            try {
                auto r = do_edit(std::as_const(*x.p), a, E);
                if (r) hs[a.g].p = box<P>(std::move(*r)); else xflag = 2;
            } catch (std::logic_error const&) { xflag = 1; Timed::off(); }
            E.num("al", ac.get()); E.num("d0", d0);
            E.num("x", xflag);
            if (!xflag) { hs[a.g].s = x.s; shadow_edit(hs[a.g].s, a); log_size(E, a.g); }
            E.done();
        } else return false;
        return true;
    }
    bool step_throw(Step const& a) {
        if constexpr (!F_FAIL) return false; else {
        H& x = hs[a.h];
        if (!x.live() || x.s.empty()) return false;
        if (a.how == "key" && (!C::ORD || !C::HASUPK)) return false;
        if (a.how == "idx" && !C::IDX) return false;
        Event E = ev("Thr"); E.num("h", a.h); E.num("i", a.i); E.str("how", a.how); E.num("k", a.k);
        int t = 0;
        try { if (x.t) do_throwing_update(*x.t, a); else do_throwing_update(std::as_const(*x.p), a); }
        catch (UpdaterThrew const&) { t = 1; }
        E.num("x", t); log_size(E, a.h); E.done();
        return true;
        }
    }
    bool step_derive(Step const& a) {
        // how: source and target kinds, e.g. "TP" = persistent() of a transient
        if (!hs[a.h].live() || hs[a.g].live() || a.h == a.g) return false;
        bool mv = a.op == "drvm";
        bool srcT = (bool)hs[a.h].t;
        bool dstT = a.how == "T";
        AllocCount ac;
        Event E = ev(mv ? "DrvM" : "Drv"); E.num("h", a.h); E.num("g", a.g); E.str("k", a.how); E.num("v", a.v);
        Timed lib;
        if (srcT && !dstT) {
            T& t = *hs[a.h].t;
            if (mv) { lib.start(); P r = std::move(t).persistent(); lib.stop(); hs[a.g].p = box<P>(std::move(r)); }
            else { lib.start(); P r = t.persistent(); lib.stop(); hs[a.g].p = box<P>(std::move(r)); }
        } else if (!srcT && dstT) {
            P& p = *hs[a.h].p;
            if (mv) { lib.start(); T r = std::move(p).transient(); lib.stop(); hs[a.g].t = box<T>(std::move(r)); }
            else { lib.start(); T r = p.transient(); lib.stop(); hs[a.g].t = box<T>(std::move(r)); }
        } else if (a.n > 0) {       // a crowd of copies, of which one stays
            if (mv) return false;
            E.num("n", a.n);
            auto crowd = [&](auto& t, auto& to) {
                using X = std::decay_t<decltype(t)>;
                std::vector<X> all;
                all.reserve(static_cast<size_t>(a.n));
                lib.start();
                for (int j = 0; j < a.n; ++j) all.push_back(t);
                lib.stop();
                to = box<X>(std::move(all[static_cast<size_t>(a.n) / 2]));
                lib.start();
                while (!all.empty()) all.pop_back();
                lib.stop();
            };
            if (srcT) crowd(*hs[a.h].t, hs[a.g].t); else crowd(*hs[a.h].p, hs[a.g].p);
        } else if (srcT) {
            T& t = *hs[a.h].t;
            lib.start();
            if (mv) { T r(std::move(t)); lib.stop(); hs[a.g].t = box<T>(std::move(r)); }
            else if (a.v % 3 == 0) { T r(t); lib.stop(); hs[a.g].t = box<T>(std::move(r)); }
            else if (a.v % 3 == 1) { T r = std::as_const(t); lib.stop(); hs[a.g].t = box<T>(std::move(r)); }
            else { auto r = t; lib.stop(); hs[a.g].t = box<T>(std::move(r)); }
        } else {
            P& p = *hs[a.h].p;
            lib.start();
            if (mv) { P r(std::move(p)); lib.stop(); hs[a.g].p = box<P>(std::move(r)); }
            else if (a.v % 3 == 0) { P r(p); lib.stop(); hs[a.g].p = box<P>(std::move(r)); }
            else if (a.v % 3 == 1) { P r = std::as_const(p); lib.stop(); hs[a.g].p = box<P>(std::move(r)); }
            else { auto r = p; lib.stop(); hs[a.g].p = box<P>(std::move(r)); }
        }
        hs[a.g].s = hs[a.h].s;
        E.num("al", ac.get());
        if (mv) { invalidate(a.h); hs[a.h].t.reset(); hs[a.h].p.reset(); hs[a.h].s.clear(); }
        log_size(E, a.g); E.done();
        return true;
    }
    bool step_assign(Step const& a) {
        H &x = hs[a.h], &y = hs[a.g];
        if (!x.live() || !y.live() || (bool)x.t != (bool)y.t) return false;
        if (a.op != "asg" && a.h == a.g) return false;
        Event E = ev(a.op == "asg" ? "Asg" : a.op == "asgm" ? "AsgM" : "Swp"); E.num("h", a.h); E.num("g", a.g);
        AllocCount ac; Timed lib; lib.start();
        if (a.op == "asg") { if (x.t) *y.t = *x.t; else *y.p = *x.p; }
        else if (a.op == "asgm") { if (x.t) *y.t = std::move(*x.t); else *y.p = std::move(*x.p); }
        else { if (x.t) std::swap(*x.t, *y.t); else std::swap(*x.p, *y.p); }
        lib.stop();
        E.num("al", ac.get());
        invalidate(a.g);
        if (a.op == "asg") y.s = std::vector<int>(x.s);
        else if (a.op == "asgm") { y.s = x.s; invalidate(a.h); x.t.reset(); x.p.reset(); x.s.clear(); }
        else { std::swap(x.s, y.s); invalidate(a.h); }
        log_size(E, a.g); E.done();
        return true;
    }
    // kinds of iterator: v = 0 iterator, 1 const_iterator, 2 reverse_iterator, 3 const_reverse_iterator
    bool step_mk(Step const& a) {
        if (!hs[a.h].live()) return false;
        auto const& w = a.how;
        int n = (int)hs[a.h].s.size();
        auto put = [&](auto x) { its[a.it].it = x; its[a.it].h = a.h; };
        bool ok = true;
        drop_it(a.it);
        Event E = ev("Mk"); E.num("it", a.it); E.num("h", a.h); E.str("how", w); E.num("i", a.i); E.num("j", a.j); E.num("v", a.v);
        Timed lib; AllocCount ac; lib.start();
        with(a.h, [&](auto& t) {
            auto const& ct = t;
            int kind = a.v % 4;
            if (w == "begin") { if (kind == 0) put(t.begin()); else if (kind == 1) put(ct.begin()); else if (kind == 2) put(t.begin()); else put(ct.cbegin()); }
            else if (w == "end") { if (kind == 0) put(t.end()); else if (kind == 1) put(ct.end()); else if (kind == 2) put(t.end()); else put(ct.cend()); }
            else if (w == "rbegin") { if (kind == 0) put(t.rbegin()); else if (kind == 1) put(ct.rbegin()); else if (kind == 2) put(t.rbegin()); else put(ct.crbegin()); }
            else if (w == "rend") { if (kind == 0) put(t.rend()); else if (kind == 1) put(ct.rend()); else if (kind == 2) put(t.rend()); else put(ct.crend()); }
            else if (w == "step") {     // begin or rbegin moved to position i
                if (kind == 0) { auto x = t.begin(); x += a.i; put(x); } else if (kind == 1) { auto x = ct.begin(); x += a.i; put(x); }
                else if (kind == 2) { auto x = t.rbegin(); x += n - 1 - a.i; put(x); } else { auto x = ct.rbegin(); x += n - 1 - a.i; put(x); }
            }
            else if (w == "index") { if constexpr (C::IDX) { using SZ = typename C::SZ; if (kind % 2 == 0) put(t.find_index((SZ)a.i)); else put(ct.find_index((SZ)a.i)); } else ok = false; }
            else if (w == "find") { if constexpr (C::ORD) { auto k = C::mkk(a.i); if (kind % 2 == 0) put(t.find(k)); else put(ct.find(k)); } else ok = false; }
            else if (w == "lb") { if constexpr (C::ORD) { auto k = C::mkk(a.i); if (kind % 2 == 0) put(t.lower_bound(k)); else put(ct.lower_bound(k)); } else ok = false; }
            else if (w == "ub") { if constexpr (C::ORD) { auto k = C::mkk(a.i); if (kind % 2 == 0) put(t.upper_bound(k)); else put(ct.upper_bound(k)); } else ok = false; }
            else if (w == "slb") { if constexpr (C::SUM) { auto k = C::template mks<typename C::SumT>(a.i); if (kind % 2 == 0) put(t.sum_lower_bound(k)); else put(ct.sum_lower_bound(k)); } else ok = false; }
            else if (w == "mine") { if constexpr (C::MIN) { if (kind % 2 == 0) put(t.min_element()); else put(ct.min_element()); } else ok = false; }
            else if (w == "maxe") { if constexpr (C::MAX) { if (kind % 2 == 0) put(t.max_element()); else put(ct.max_element()); } else ok = false; }
            else ok = false;
        });
        lib.stop();
        if (!ok) { E.cancel(); return false; }
        int p = -2;
        visit_it(a.it, [&](auto& x) { p = pos_of(a.h, x); });
        // shadow position: from the arguments where they determine it
        if (w == "begin") p = 0; else if (w == "end") p = n; else if (w == "rbegin") p = n - 1; else if (w == "rend") p = -1;
        else if (w == "step" || w == "index") p = a.i;
        else if (w == "lb") p = lb(hs[a.h].s, a.i);
        else if (w == "find") p = has(hs[a.h].s, a.i) ? lb(hs[a.h].s, a.i) : n;
        else if (w == "ub") p = lb(hs[a.h].s, a.i) + (has(hs[a.h].s, a.i) ? 1 : 0);
        its[a.it].p = p;
        E.num("al", ac.get()); E.num("r", rev_of(a.it));
        log_it(E, a.it); E.done();
        return true;
    }
    bool step_it_edit(Step const& a) {
        if constexpr (!F_ITED) return false; else {
        It& it = its[a.it];
        if (!it.live()) return false;
        int h = it.h;
        H& x = hs[h];
        int n = (int)x.s.size();
        auto const& o = a.op;
        int rev = rev_of(a.it);
        if (o != "it_ins" && !(0 <= it.p && it.p < n)) return false;
        if (o == "it_ins" && rev == 0 && it.p < 0) return false;
        bool ok = true;
        AllocCount ac;
        if (x.t) {
            Event E = ev("I"); E.num("it", a.it); E.num("keep", a.keep); log_args(E, a); E.num("d0", (int)x.t->depth());
            int nb = erases(o) ? neighbours(h, it.p) : 0, at = it.p;
            Timed lib;
            visit_it(a.it, [&](auto& y) {
                using Y = std::decay_t<decltype(y)>;
                if constexpr (std::is_same_v<Y, TI> || std::is_same_v<Y, TC> || std::is_same_v<Y, TR> || std::is_same_v<Y, TCR>) {
                    T& t = *x.t;
                    if (o == "it_ins") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); if (a.keep) t.insert(y, std::forward<decltype(xs)>(xs)...); else t.insert(Y(y), std::forward<decltype(xs)>(xs)...); lib.stop(); });
                    else if (o == "it_era") { lib.start(); if (a.keep) t.erase(y); else t.erase(Y(y)); lib.stop(); }
                    else if (o == "it_set") {
                        if (a.v >= 8) {
                            if constexpr (std::is_same_v<Y, TI> || std::is_same_v<Y, TR>) { V v = C::mk(a.e); lib.start(); *y = v; lib.stop(); }
                            else { V v = C::mk(a.e); lib.start(); t.assign(y, v); lib.stop(); }
                        } else C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); t.assign(y, std::forward<decltype(xs)>(xs)...); lib.stop(); });
                    }
                    else { lib.start(); t.update(y, [&](V const& v) { lib.stop(); V r = C::mk(C::un(v) + a.d); lib.start(); return r; }); lib.stop(); }
                } else ok = false;
            });
            if (!ok) { E.cancel(); return false; }
            E.num("al", ac.get());
            int spot = rev ? std::min(it.p + 1, n) : it.p;
            if (o == "it_ins") { x.s.insert(x.s.begin() + spot, a.e); it.p = at = spot; }
            else if (o == "it_era") { x.s.erase(x.s.begin() + it.p); if (rev) --it.p; }
            else if (o == "it_set") x.s[it.p] = a.e;
            else x.s[it.p] += a.d;
            E.num("nb", erases(o) ? nb : neighbours(h, at));
            bool structural = o == "it_ins" || o == "it_era";
            if (structural) { invalidate(h, a.keep ? a.it : -1); }
            if (its[a.it].live()) log_it(E, a.it);
            E.num("h", h); log_size(E, h); E.done();
        } else {
            if (hs[a.g].live()) return false;
            Event E = ev("PI"); E.num("it", a.it); E.num("g", a.g); log_args(E, a);
            Timed lib;
            std::optional<P> r;
            int d0 = (int)x.p->depth();
            visit_it(a.it, [&](auto& y) {
                using Y = std::decay_t<decltype(y)>;
                if constexpr (F_PERS && (std::is_same_v<Y, PI> || std::is_same_v<Y, PC> || std::is_same_v<Y, PR> || std::is_same_v<Y, PCR>)) {
                    P const& t = *x.p;
                    if (o == "it_ins") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); r.emplace(t.insert(y, std::forward<decltype(xs)>(xs)...)); lib.stop(); });
                    else if (o == "it_era") { lib.start(); r.emplace(t.erase(y)); lib.stop(); }
                    else if (o == "it_set") C::args(a.v, a.e, [&](auto&&... xs) { lib.start(); r.emplace(t.assign(y, std::forward<decltype(xs)>(xs)...)); lib.stop(); });
                    else { lib.start(); r.emplace(t.update(y, [&](V const& v) { lib.stop(); V q = C::mk(C::un(v) + a.d); lib.start(); return q; })); lib.stop(); }
                } else ok = false;
            });
            if (!ok) { E.cancel(); return false; }
            E.num("al", ac.get()); E.num("d0", d0);
            hs[a.g].p = box<P>(std::move(*r));
            hs[a.g].s = x.s;
            auto& s = hs[a.g].s;
            if (o == "it_ins") s.insert(s.begin() + (rev ? std::min(it.p + 1, n) : it.p), a.e);
            else if (o == "it_era") s.erase(s.begin() + it.p);
            else if (o == "it_set") s[it.p] = a.e;
            else s[it.p] += a.d;
            log_it(E, a.it); log_size(E, a.g); E.done();
        }
        return true;
        }
    }
    bool step_proxy(Step const& a) {
        if constexpr (F_PROXY && C::ARITH && (!C::ORD || (C::MAPPED && !C::IDX && C::HASPROXY))) {
            H& x = hs[a.h];
            if (!x.t || a.i < 0 || a.i >= (int)x.s.size()) return false;
            Event E = ev("Px"); E.num("h", a.h); E.num("i", a.i); E.str("op", proxy_op(a.n)); E.num("b", a.d); E.num("v", a.v);
            int r = 0;
            Timed lib; lib.start(); with_proxy(*x.t, x.s, a.i, a.v, [&](auto&& pr) { r = proxy_apply(pr, a.n, a.d); }); lib.stop();
            E.num("res", r);
            x.s[a.i] = C::proxy_shadow(x.s[a.i], a.n, a.d);
            log_size(E, a.h); E.done();
            return true;
        } else return false;
    }
    bool step_proxy_query(Step const& a) {
        if constexpr (F_PROXY && C::ARITH && (!C::ORD || (C::MAPPED && !C::IDX && C::HASPROXY))) {
            H& x = hs[a.h];
            if (!x.t || a.i < 0 || a.i >= (int)x.s.size() || a.j < 0 || a.j >= (int)x.s.size()) return false;
            Event E = ev("PxQ"); E.num("h", a.h); E.num("i", a.i); E.num("j", a.j); E.num("b", a.d); E.num("v", a.v);
            using M = typename C::M;
            std::vector<std::string> ops; std::vector<std::vector<int>> rows;
            std::string names;
            with_proxy(*x.t, x.s, a.i, a.v, [&](auto&& p1) {
                with_proxy(*x.t, x.s, a.j, a.v, [&](auto&& p2) {
                    for (int op = 0; op < 16; ++op) {
                        int xi = C::MAPPED ? floormod(x.s[a.i], C::KM) : x.s[a.i], xj = C::MAPPED ? floormod(x.s[a.j], C::KM) : x.s[a.j];
                        if (op == 1 && C::BOX) continue;
                        auto fine = [&](int l, int r) { if ((op == 9 || op == 10) && r == 0) return false; if (op >= 11 && (l < 0 || r < 0)) return false; if (op >= 14 && (r > 6 || l > 100000)) return false; if (op == 8 && (std::abs((long)l * r) > 1000000000L)) return false; return true; };
                        M m = static_cast<M>(a.d);
                        if (fine(xi, a.d)) rows.push_back({op, 0, bin_apply(p1, m, op)});
                        if (fine(a.d, xi)) rows.push_back({op, 1, bin_apply(m, p1, op)});
                        if constexpr (!C::BOX || std::is_same_v<decltype(p1), decltype(p2)>) { if (fine(xi, xj)) rows.push_back({op, 2, bin_apply(p1, p2, op)}); }
                    }
                    rows.push_back({99, 0, C::unm(p1.get())});
                });
            });
            E.arr2("q", rows); E.done();
            return true;
        } else return false;
    }
    bool step_proxy_swap(Step const& a) {
        if constexpr (F_PROXY && !C::ORD) {
            H& x = hs[a.h];
            H& y = hs[a.g];
            if (!x.t || !y.t || a.i < 0 || a.i >= (int)x.s.size() || a.j < 0 || a.j >= (int)y.s.size()) return false;
            Event E = ev("PxS"); E.num("h", a.h); E.num("i", a.i); E.num("g", a.g); E.num("j", a.j); E.num("v", a.v);
            int n = (int)x.s.size(), m = (int)y.s.size();
            Timed lib; lib.start();
            if (a.v % 2 == 0) { auto p = x.t->begin() + a.i; auto q = y.t->begin() + a.j; swap(*p, *q); }
            else { auto p = x.t->rbegin() + (n - 1 - a.i); auto q = y.t->rbegin() + (m - 1 - a.j); swap(*p, *q); }
            lib.stop();
            std::swap(x.s[a.i], y.s[a.j]);
            E.done();
            return true;
        } else return false;
    }
    bool step_alg(Step const& a) {
        if constexpr (F_PROXY && !C::ORD && C::IDX && C::ALGO) {
            H& x = hs[a.h];
            int n = (int)x.s.size();
            if (!x.t || a.i < 0 || a.j < a.i || a.j > n) return false;
            if (a.how == "rotate" && (a.d < 0 || a.d > a.j - a.i)) return false;
            Event E = ev("Alg"); E.num("h", a.h); E.str("op", a.how); E.num("i", a.i); E.num("j", a.j); E.num("d", a.d);
            T& t = *x.t;
            auto lo = t.begin() + a.i; auto hi = t.begin() + a.j;
            auto less = [](V const& p, V const& q) { return C::un(p) < C::un(q); };
            auto more = [](V const& p, V const& q) { return C::un(p) > C::un(q); };
            auto b = x.s.begin() + a.i; auto e = x.s.begin() + a.j;
            if (a.how == "sort") { std::sort(lo, hi, less); std::sort(b, e); }
            else if (a.how == "rsort") { auto rl = t.rbegin() + (n - a.j); auto rh = t.rbegin() + (n - a.i); std::sort(rl, rh, less); std::sort(b, e, std::greater<int>()); }
            else if (a.how == "reverse") { std::reverse(lo, hi); std::reverse(b, e); }
            else if (a.how == "rotate") { std::rotate(lo, lo + a.d, hi); std::rotate(b, b + a.d, e); }
            else if (a.how == "fill") { V v = C::mk(a.d); std::fill(lo, hi, v); std::fill(b, e, a.d); }
            else if (a.how == "addall") { for (auto y = lo; y != hi; ++y) { V v = C::mk(C::un(y.get()) + a.d); *y = v; } for (auto y = b; y != e; ++y) *y += a.d; }
            (void)more;
            E.done();
            return true;
        } else return false;
    }
    // insert or assign a value that is read from the same tree, by reference
    bool step_alias(Step const& a) {
        H& x = hs[a.h];
        int n = (int)x.s.size();
        if (!x.t || n == 0 || a.j < 0 || a.j >= n) return false;
        T& t = *x.t;
        Step b = a;
        b.op = a.how;
        b.e = x.s[a.j];
        if (b.op == "ins_at" && (a.i < 0 || a.i > n)) return false;
        if (b.op == "set_at" && (a.i < 0 || a.i >= n)) return false;
        if constexpr (C::ORD) {
            if (b.op != "ioa" || !C::MAPPED) return false;
            if constexpr (C::MAPPED) {
                // key of element i (or a fresh key), value of element j, both by reference into the tree
                int key = a.k;
                bool present = has(x.s, key);
                b.e = key * C::KM + floormod(x.s[a.j], C::KM);
                Event E = ev("E"); E.num("h", a.h); log_args(E, b);
                auto src = t.begin(); src += a.j;
                auto const& m = C::mapped_ref(src.get());
                auto call = [&](auto const& k, auto const& v) { if constexpr (C::FLIP) t.insert_or_assign(v, k); else t.insert_or_assign(k, v); };
                if (present) { auto kp = t.begin(); kp += lb(x.s, key); auto const& k = C::key_ref(kp.get()); call(k, m); }
                else { auto k = C::mkk(key); call(k, m); }
                shadow_edit(x.s, b); invalidate(a.h);
                E.num("x", 0); log_size(E, a.h); E.done();
                return true;
            }
        } else {
            if (b.op != "ins_at" && b.op != "set_at" && b.op != "push_back" && b.op != "push_front") return false;
            Event E = ev("E"); E.num("h", a.h); log_args(E, b);
            auto src = t.begin(); src += a.j;
            V const& ref = src.get();
            if (b.op == "push_back") t.push_back(ref);
            else if (b.op == "push_front") t.push_front(ref);
            else { auto it = t.begin(); it += a.i; if (b.op == "ins_at") t.insert(it, ref); else t.assign(it, ref); }
            shadow_edit(x.s, b); if (structural(b.op)) invalidate(a.h);
            E.num("x", 0); log_size(E, a.h); E.done();
            return true;
        }
        return false;
    }
    // how many elements a leaf and how many children an internal node hold, seen from when the depth grows
    void measure(int& lc, int& ic, int& lb, int& nb) override {
        set_current("measure");
        heap.biggest = 0;
        Timed tm; tm.start();
        T t;
        tm.stop();
        lb = nb = (int)heap.biggest;
        lc = ic = 0;
        if (t.max_depth() < 3) return;
        int j = 0;
        auto push = [&] { int k = C::KDIR == 1 ? j : -j; ++j; auto e = C::mk(C::ORD ? k * C::KM : 0); tm.start(); t.push_back(e); tm.stop(); };
        while (t.depth() < 2 && j < 1000000) push();
        lc = (int)t.size() - 1;
        while (t.depth() < 3 && j < 1000000) push();
        ic = ((int)t.size() - 1) / lc;
        if (ic * lc != (int)t.size() - 1) ic = -1;
        nb = (int)heap.biggest;
    }
    void reset() override { for (int i = 0; i < NI; ++i) drop_it(i); for (auto& h : hs) { h.t.reset(); h.p.reset(); h.s.clear(); } }
};
} // namespace vx
