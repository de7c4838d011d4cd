// Drives inverted indices - the library's example, and indices built from two trees in the same way but edited through
// more of the interface - and records every call and what the trees then show, in the vocabulary of spec/TraceIndex.tla.
// The shadow map only chooses arguments; it never judges.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include "rt.hpp"
#include "inverted_index.hpp"

using namespace vx;
namespace {
struct Rng {
    uint64_t s;
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL >> 16; }
    int operator()(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
    bool chance(int p) { return (*this)(100) < p; }
};
template <typename X> struct Term { static X mk(int t) { return static_cast<X>(t); } static int un(X const& x) { return static_cast<int>(x); } };
template <> struct Term<std::string> {
    static std::string mk(int t) { char b[64]; snprintf(b, sizeof b, "%06d a term that does not fit", t); return b; }
    static int un(std::string const& s) { return atoi(s.c_str()); }
};
using M = std::map<int, std::set<int>>;

// ---------------------------------------------------------------------------------------------------- own indices
template <typename TermT, typename TermTree, typename DocTree>
struct Own {
    using X = Term<TermT>;
    using TT = typename TermTree::Transient; using TP = typename TermTree::Persistent;
    using DT = typename DocTree::Transient; using DP = typename DocTree::Persistent;
    struct T { TT terms; DT docs; };
    struct P { TP terms; DP docs; };
    static constexpr bool EXAMPLE = false;

    template <typename A, typename B, typename It>
    static auto range(A const& terms, B const& docs, It const& it, int style) {
        if (style % 3 == 0) { auto m = terms.sum_inclusive(it); return std::make_pair(docs.find_index(m - it->second), docs.find_index(m)); }
        if (style % 3 == 1) { auto m = terms.sum_exclusive(it); return std::make_pair(docs.find_index(m), docs.find_index(m + it->second)); }
        auto lo = docs.begin(); lo += static_cast<int>(terms.sum_exclusive(it)); auto hi = lo; hi += static_cast<int>(it->second);
        return std::make_pair(lo, hi);
    }
    template <typename It> static It place(It lo, It hi, uint32_t d, int style) {
        if (style % 2 == 0) return std::lower_bound(lo, hi, d);
        while (lo != hi && *lo < d) ++lo;
        return lo;
    }
    static void edit(T& x, std::string const& op, int t, int d, int style) {
        TermT term = X::mk(t);
        if (op == "add") {
            auto it = x.terms.lower_bound(term);
            if (!it.valid() || !(it->first == term)) {
                if (style & 1) x.terms.insert(it, term, 0u);
                else { x.terms.insert_v(term, 0u); it = x.terms.find(term); }
            }
            auto [lo, hi] = range(x.terms, x.docs, it, style / 2);
            auto di = place(lo, hi, (uint32_t)d, style / 4);
            if (di == hi || *di != (uint32_t)d) {
                x.docs.insert(di, (uint32_t)d);
                count(x, it, term, 1, style / 8);
            }
        } else if (op == "rem") {
            auto it = x.terms.find(term);
            if (it == x.terms.end()) return;
            auto [lo, hi] = range(x.terms, x.docs, it, style / 2);
            auto di = place(lo, hi, (uint32_t)d, style / 4);
            if (di == hi || *di != (uint32_t)d) return;
            if (style & 1) x.docs.erase(di); else x.docs.erase_index(x.docs.order(di));
            if (it->second == 1) { if (style & 2) x.terms.erase(it); else x.terms.erase_key(term); }
            else count(x, it, term, -1, style / 8);
        } else {    // drop all documents of the term
            auto it = x.terms.find(term);
            if (it == x.terms.end()) return;
            auto n = it->second;
            auto from = x.terms.sum_exclusive(it);
            if (style & 1) for (uint32_t j = 0; j < n; ++j) x.docs.erase_index(from);
            else { auto di = x.docs.find_index(from); for (uint32_t j = 0; j < n; ++j) x.docs.erase(di); }
            if (style & 2) x.terms.erase_key(term); else x.terms.erase(it);
        }
    }
    template <typename It> static void count(T& x, It& it, TermT const& term, int by, int style) {
        switch (style % 4) {
            case 0: x.terms.update(it, [by](auto const& p) { return std::make_pair(p.first, p.second + (uint32_t)by); }); break;
            case 1: x.terms.update_key(term, [by](auto const& c) { return c + (uint32_t)by; }); break;
            case 2: { auto c = it->second; x.terms.assign(it, term, c + (uint32_t)by); break; }
            default: { auto c = x.terms.at_key(term); x.terms.insert_or_assign(term, c + (uint32_t)by); }
        }
    }
    static P pedit(P const& p, std::string const& op, int t, int d, int style) {
        if (style & 16) { T x{p.terms.transient(), p.docs.transient()}; edit(x, op, t, d, style); return P{std::move(x.terms).persistent(), std::move(x.docs).persistent()}; }
        TermT term = X::mk(t);
        P r = p;
        if (op == "add") {
            if (!r.terms.contains(term)) { if (style & 1) r.terms = r.terms.insert_v(term, 0u); else r.terms = r.terms.insert(r.terms.lower_bound(term), term, 0u); }
            auto it = r.terms.find(term);
            auto [lo, hi] = range(r.terms, r.docs, it, style / 2);
            auto di = place(lo, hi, (uint32_t)d, style / 4);
            if (di == hi || *di != (uint32_t)d) {
                r.docs = style & 1 ? r.docs.insert(di, (uint32_t)d) : r.docs.insert_index(r.docs.order(di), (uint32_t)d);
                r.terms = style & 8 ? r.terms.update_key(term, [](auto const& c) { return c + 1; }) : r.terms.update(it, [](auto const& q) { return std::make_pair(q.first, q.second + 1); });
            }
        } else {
            auto it = r.terms.find(term);
            if (it == r.terms.end()) return r;
            if (op == "drop") {
                auto n = it->second; auto from = r.terms.sum_exclusive(it);
                for (uint32_t j = 0; j < n; ++j) r.docs = r.docs.erase_index(from);
                r.terms = style & 1 ? r.terms.erase(it) : r.terms.erase_key(term);
                return r;
            }
            auto [lo, hi] = range(r.terms, r.docs, it, style / 2);
            auto di = place(lo, hi, (uint32_t)d, style / 4);
            if (di == hi || *di != (uint32_t)d) return r;
            r.docs = style & 1 ? r.docs.erase(di) : r.docs.erase_index(r.docs.order(di));
            if (it->second == 1) r.terms = style & 2 ? r.terms.erase(it) : r.terms.erase_key(term);
            else { auto c = it->second; r.terms = r.terms.assign_v(term, c - 1); }
        }
        return r;
    }
    static P snap(T& x, bool mv) { if (mv) return P{std::move(x.terms).persistent(), std::move(x.docs).persistent()}; return P{x.terms.persistent(), x.docs.persistent()}; }
    static T thaw(P& x, bool mv) { if (mv) return T{std::move(x.terms).transient(), std::move(x.docs).transient()}; return T{x.terms.transient(), x.docs.transient()}; }
    template <typename I> static void dump(I const& x, int way, Event& E) {
        std::vector<int> ts, cs, is, es, ds;
        if (way % 2 == 0) for (auto it = x.terms.begin(); it != x.terms.end(); ++it) { ts.push_back(X::un(it->first)); cs.push_back((int)it->second); is.push_back((int)x.terms.sum_inclusive(it)); es.push_back((int)x.terms.sum_exclusive(it)); if (ts.size() > 4000) break; }
        else {
            for (auto it = x.terms.rbegin(); it != x.terms.rend(); ++it) { ts.push_back(X::un(it->first)); cs.push_back((int)it->second); auto f = x.terms.find(it->first); is.push_back((int)x.terms.sum_inclusive(f)); es.push_back((int)x.terms.sum_exclusive(f)); if (ts.size() > 4000) break; }
            for (auto* v : {&ts, &cs, &is, &es}) std::reverse(v->begin(), v->end());
        }
        if (way / 2 == 0) for (auto const& d : x.docs) { ds.push_back((int)d); if (ds.size() > 8000) break; }
        else for (size_t j = 0; j < x.docs.size(); ++j) ds.push_back((int)x.docs.at_index(j));
        E.arr("ts", ts); E.arr("cs", cs); E.arr("is", is); E.arr("es", es); E.arr("ds", ds);
        E.num("tot", (long)x.terms.sum()); E.num("n", (long)x.docs.size());
    }
    template <typename I> static void look(I const& x, std::vector<int> const& terms, int style, Event& E) {
        std::vector<std::vector<int>> q;
        for (int t : terms) {
            auto it = x.terms.find(X::mk(t));
            if (it == x.terms.end()) { q.push_back({t, 0}); continue; }
            auto [lo, hi] = range(x.terms, x.docs, it, style);
            std::vector<int> r{t, 1, (int)x.docs.order(lo), (int)x.docs.order(hi)};
            for (auto y = lo; y != hi && r.size() < 4000; ++y) r.push_back((int)*y);
            q.push_back(r);
        }
        E.arr2("q", q);
    }
    template <typename I> static void owner(I const& x, std::vector<int> const& ps, Event& E) {
        std::vector<std::vector<int>> q;
        for (int p : ps) { auto it = x.terms.sum_lower_bound((uint32_t)p + 1); q.push_back({p, it.valid() ? X::un(it->first) : -1}); }
        E.arr2("q", q);
    }
};
// ---------------------------------------------------------------------------------------------------- the example
template <typename TermT, size_t leaf, size_t internal, size_t depth>
struct Ex {
    struct X { static TermT mk(int t) { return Term<TermT>::mk(t + 1); } static int un(TermT const& x) { return Term<TermT>::un(x) - 1; } };   // 0 is a known finding
    using I = InvertedIndex<TermT, leaf, internal, depth>;
    using T = typename I::Transient;
    struct P {};
    static constexpr bool EXAMPLE = true;
    static void edit(T& x, std::string const&, int t, int d, int style) { if (style & 1) { TermT k = X::mk(t); x.insert(k, (uint32_t)d); } else x.insert(X::mk(t), (uint32_t)d); }
    static void view(T const& x, Event& E) {
        std::vector<std::vector<int>> q;
        for (auto it = x.term_list().begin(); it != x.term_list().end() && q.size() < 4000; ++it) {
            auto [lo, hi] = x.term_doc_iterator(it);
            std::vector<int> r{X::un(it->first), (int)it->second};
            for (auto y = lo; y != hi && r.size() < 4000; ++y) r.push_back((int)*y);
            q.push_back(r);
        }
        E.arr2("q", q);
    }
};

template <typename C> struct Run {
    static constexpr int NH = 6;
    std::optional<typename C::T> t[NH];
    std::optional<typename C::P> p[NH];
    M s[NH];
    Rng rng;
    long limit;
    int maxdocs;
    bool done() { return events() >= limit || full(); }
    bool live(int h) { return t[h] || p[h]; }
    int docs(int h) { int n = 0; for (auto& e : s[h]) n += (int)e.second.size(); return n; }
    int pick(bool wt, bool wp) { int c[NH], n = 0; for (int h = 0; h < NH; ++h) if ((t[h] && wt) || (p[h] && wp)) c[n++] = h; return n ? c[rng(n)] : -1; }
    int spare() { for (int h = 0; h < NH; ++h) if (!live(h)) return h; return -1; }
    void shadow(M& m, std::string const& op, int a, int d) {
        if (op == "add") m[a].insert(d);
        else if (op == "rem") { auto i = m.find(a); if (i != m.end()) { i->second.erase(d); if (i->second.empty()) m.erase(i); } }
        else m.erase(a);
    }
    void del(int h) { Event E("Del"); set_current("del"); E.num("h", h); t[h].reset(); p[h].reset(); s[h].clear(); E.done(); }
    void look(int h) {
        if constexpr (C::EXAMPLE) { set_current("view"); Event E("View"); E.num("h", h); C::view(*t[h], E); E.done(); }
        else {
            int m = rng(3);
            if (m == 0) { set_current("dump"); Event E("Dump"); E.num("h", h); int w = rng(4); if (t[h]) C::dump(std::as_const(*t[h]), w, E); else C::dump(std::as_const(*p[h]), w, E); E.done(); }
            else if (m == 1) {
                set_current("look"); Event E("Look"); E.num("h", h);
                std::vector<int> q; for (int j = 0; j < 3; ++j) q.push_back(rng.chance(50) && !s[h].empty() ? std::next(s[h].begin(), rng((int)s[h].size()))->first : rng(nterms + 1));
                if (t[h]) C::look(std::as_const(*t[h]), q, rng(3), E); else C::look(std::as_const(*p[h]), q, rng(3), E);
                E.done();
            } else {
                int n = docs(h); if (!n) return;
                set_current("owner"); Event E("Own"); E.num("h", h);
                std::vector<int> q; for (int j = 0; j < 4; ++j) q.push_back(rng(n));
                if (t[h]) C::owner(std::as_const(*t[h]), q, E); else C::owner(std::as_const(*p[h]), q, E);
                E.done();
            }
        }
    }
    int nterms = 10, ndocs = 10;
    void one() {
        nterms = 2 + rng(rng.chance(50) ? 8 : 40); ndocs = 2 + rng(12);
        int order = rng(4);
        { Event E("Cfg"); E.num("x", 0); E.done(); }
        auto make = [&] { int h = spare(); if (h < 0) return; set_current("new"); Event E("New"); E.num("h", h); bool mut = C::EXAMPLE || rng.chance(75); E.str("k", mut ? "T" : "P"); if (mut) t[h].emplace(); else p[h].emplace(); s[h].clear(); E.done(); };
        make();
        int len = 20 + rng(120), j = 0;
        for (; j < len && !done(); ++j) {
            int m = rng(100);
            if (m < 70 || C::EXAMPLE) {
                int h = pick(true, !C::EXAMPLE); if (h < 0) { make(); continue; }
                char const* ops[] = {"add", "rem", "drop"};
                bool big = docs(h) >= maxdocs || (int)s[h].size() >= maxdocs;
                std::string op = ops[C::EXAMPLE ? 0 : big ? 1 + rng(2) : rng.chance(70) ? 0 : rng.chance(85) ? 1 : 2];
                if (big && C::EXAMPLE) break;
                int a = order == 0 ? std::min(nterms, j / 3) : order == 1 ? std::max(0, nterms - j / 3) : rng(nterms + 1), d = order == 3 ? j % (ndocs + 1) : rng(ndocs + 1);
                if (op != "add" && !s[h].empty() && rng.chance(85)) { auto i = std::next(s[h].begin(), rng((int)s[h].size())); a = i->first; if (rng.chance(85)) d = *std::next(i->second.begin(), rng((int)i->second.size())); }
                int style = rng(64);
                set_current(op.c_str());
                if (t[h]) {
                    Event E("Ed"); E.num("h", h); E.str("op", op); E.num("t", a); E.num("d", d); E.num("v", style);
                    C::edit(*t[h], op, a, d, style);
                    shadow(s[h], op, a, d); E.done();
                } else if constexpr (!C::EXAMPLE) {
                    int g = rng.chance(40) ? h : spare(); if (g < 0) { g = pick(false, true); }
                    Event E("PEd"); E.num("h", h); E.num("g", g); E.str("op", op); E.num("t", a); E.num("d", d); E.num("v", style);
                    auto r = C::pedit(*p[h], op, a, d, style);
                    M n = s[h]; shadow(n, op, a, d);
                    t[g].reset(); p[g].emplace(std::move(r)); s[g] = n; E.done();
                }
            } else if constexpr (!C::EXAMPLE) {
                if (m < 90) {
                    int h = pick(true, true); int g = spare();
                    if (g < 0) { int d = rng(NH); if (d != h) del(d); continue; }
                    if (h < 0) continue;
                    bool mv = rng.chance(30), toT = rng.chance(50);
                    set_current("derive");
                    Event E("Drv"); E.num("h", h); E.num("g", g); E.str("k", toT ? "T" : "P");
                    if (t[h]) { if (toT) { if (mv) t[g].emplace(std::move(*t[h])); else t[g].emplace(*t[h]); } else p[g].emplace(C::snap(*t[h], mv)); }
                    else { if (toT) t[g].emplace(C::thaw(*p[h], mv)); else { if (mv) p[g].emplace(std::move(*p[h])); else p[g].emplace(*p[h]); } }
                    s[g] = s[h]; E.done();
                    if (mv) del(h);
                } else if (m < 95) make();
                else { int h = pick(true, true); if (h >= 0) del(h); }
            }
            if (rng.chance(70)) { int h = pick(true, true); if (h >= 0) look(h); }
        }
        for (int h = 0; h < NH; ++h) if (live(h)) { look(h); look(h); del(h); }
    }
    void go() { while (!done()) one(); }
};
using namespace bpptree; using namespace bpptree::detail;
#if VX_IX == 1
using C = Own<int, BppTreeMap<int, uint32_t>::leaf_node_bytes<24>::internal_node_bytes<112>::depth_limit<7>::mixins<SummedBuilder<PairExtractor<1>>>,
    BppTreeVector<uint32_t>::leaf_node_bytes<16>::internal_node_bytes<104>::depth_limit<7>::mixins<>>;
constexpr int MAXDOCS = 60;
#elif VX_IX == 2
using C = Own<std::string, BppTreeMap<std::string, uint32_t>::leaf_node_bytes<8 + 3 * 40>::internal_node_bytes<8 + 6 * 52>::depth_limit<6>::mixins<SummedBuilder<PairExtractor<1>>>,
    BppTreeVector<uint32_t>::size_type<int>::leaf_node_bytes<20>::internal_node_bytes<112>::depth_limit<6>::mixins<>>;
constexpr int MAXDOCS = 60;
#elif VX_IX == 3
using C = Own<long, BppTreeMap<long, uint32_t>::binary_search<true>::mixins<SummedBuilder<PairExtractor<1>>>, BppTreeVector<uint32_t>::size_type<uint32_t>::mixins<>>;
constexpr int MAXDOCS = 400;
#elif VX_IX == 4
using C = Ex<int, 24, 112, 7>;
constexpr int MAXDOCS = 60;
#elif VX_IX == 5
using C = Ex<int, 512, 512, 16>;
constexpr int MAXDOCS = 400;
#endif
struct Args { uint64_t seed = 1; long events = 1000; };
void body(void* v) {
    auto& a = *static_cast<Args*>(v);
    auto r = std::make_unique<Run<C>>();
    r->rng.s = (a.seed + VX_IX * 1000003) * 0x9E3779B97F4A7C15ULL + 12345; for (int i = 0; i < 9; ++i) r->rng.next();
    r->limit = a.events; r->maxdocs = MAXDOCS;
    r->go();
}
} // namespace
int main(int argc, char** argv) {
    Args a; std::string out = "/dev/null";
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "--events") a.events = atol(v.c_str()); else if (k == "--out") out = v;
    }
    return run_logged(out.c_str(), 30, body, &a);
}
