// Generator: random histories of calls within the documented preconditions, in profiles that stress one group of
// properties each, and replay of walks computed from the specification's state graph.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <memory>
#include "iface.hpp"

namespace vx {
namespace {
struct Rng {
    uint64_t s;
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL >> 16; }
    int operator()(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
    bool chance(int pct) { return (*this)(100) < pct; }
};

struct Gen {
    ExecI& x;
    Info inf;
    Rng rng;
    std::string prof;
    long limit;
    bool life = false;          // record lifetimes
    int const* hold = nullptr;  // with several threads: who may use each handle, and who this is
    int who = 0;
    // per run
    int range = 0;              // values are drawn from 0..range-1
    int pattern = 0;            // where insertions go
    int target = 0;             // size aimed at
    int nT = 1, nP = 0;
    int small = 0;

    Gen(ExecI& x_, std::string p, uint64_t seed, long lim) : x(x_), inf(x_.info()), rng{seed * 0x9E3779B97F4A7C15ULL + 0x1234567}, prof(std::move(p)), limit(lim) {
        for (int i = 0; i < 8; ++i) rng.next();
        x.measure(inf.leafcap, inf.intcap, inf.leafbytes, inf.nodebytes);
        x.rng = [this] { return static_cast<int>(rng.next() & 0x3fffffff); };
    }
    bool done() { return events() >= limit || full(); }
    bool is(char const* p) const { return prof == p; }
    bool ours(int h) const { return !hold || hold[h] == who; }

    static int fd(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
    int key(int e) const { return fd(e, inf.km); }
    bool kless(int a, int b) const { return inf.kdir == 1 ? a < b : b < a; }
    int lb(std::vector<int> const& s, int k) const {
        int lo = 0, hi = (int)s.size();
        while (lo < hi) { int m = (lo + hi) / 2; if (kless(key(s[(size_t)m]), k)) lo = m + 1; else hi = m; }
        return lo;
    }
    bool has(std::vector<int> const& s, int k) const { int p = lb(s, k); return p < (int)s.size() && key(s[(size_t)p]) == k; }
    int val() {     // a mapped value, or a plain value of an unordered tree
        int v = rng(range);
        if (inf.km > 1) return std::min(v, inf.maxv);
        return inf.neg && rng.chance(30) ? -v : v;
    }
    int rkey() { return rng(std::min(inf.maxk + 1, 2 * small + 4)); }
    int elem() {
        if (inf.km == 1) return inf.ord ? rkey() : val();
        return rkey() * inf.km + val();
    }
    int elem_with_key(int k) { return inf.km == 1 ? k : k * inf.km + val(); }
    // what to put in place of element i of an ordered tree: the same key, or another one that keeps the order
    int instead(std::vector<int> const& s, int i) {
        int n = (int)s.size(), k = key(s[(size_t)i]);
        if (rng.chance(50)) return elem_with_key(k);
        int lo = i > 0 ? key(s[(size_t)i - 1]) : k - inf.kdir * (1 + rng(4));
        int hi = i + 1 < n ? key(s[(size_t)i + 1]) : k + inf.kdir * (1 + rng(4));
        int a0 = std::max(std::min(lo, hi) + 1, 0), a1 = std::min(std::max(lo, hi) - 1, inf.maxk);
        return elem_with_key(a0 > a1 ? k : a0 + rng(a1 - a0 + 1));
    }
    int absent(std::vector<int> const& s) {
        for (int i = 0; i < 20; ++i) { int k = rkey(); if (!has(s, k)) return k; }
        return -1;
    }
    int spell() { return rng(6); }
    int pick_h(bool t, bool p) {
        int c[ExecI::NH], n = 0;
        for (int h = 0; h < ExecI::NH; ++h) if (ours(h) && x.live(h) && ((t && x.is_t(h)) || (p && !x.is_t(h)))) c[n++] = h;
        return n ? c[rng(n)] : -1;
    }
    int count(bool t) { int n = 0; for (int h = 0; h < ExecI::NH; ++h) if (ours(h) && x.live(h) && x.is_t(h) == t) ++n; return n; }
    int free_h() { for (int h = 0; h < ExecI::NH; ++h) if (ours(h) && !x.live(h)) return h; return -1; }
    // a handle for a new persistent tree, destroying an old one if there are many
    int room_p(int keep = -1, int keep2 = -1) {
        while (count(false) >= nP) {
            int h;
            int tries = 0;
            do h = pick_h(false, true); while ((h == keep || h == keep2) && ++tries < 50);
            if (h < 0 || h == keep || h == keep2) break;
            del(h);
        }
        return free_h();
    }
    void del(int h) { Step s; s.op = "del"; s.h = h; x.step(s); }

    // ------------------------------------------------------------------ edits
    bool edit(int h, int g = -1) {      // g: where the result of a persistent edit goes
        auto const& s = x.shadow(h);
        int n = (int)s.size();
        Step a; a.h = h; a.g = g; a.v = spell();
        bool per = g >= 0;
        bool grow = n < target ? rng.chance(78) : rng.chance(22);
        int what = rng(100);
        if (inf.ord) {
            bool keyed = what < 78;
            if (keyed) {
                if (grow) {
                    int m = rng(10);
                    int k = rkey();
                    if (rng.chance(60)) { int q = absent(s); if (q >= 0) k = q; }
                    if (pattern == 1 && n && rng.chance(80)) { int l = key(s[(size_t)n - 1]); int q = l + inf.kdir; if (q >= 0 && q <= inf.maxk) k = q; }
                    if (pattern == 2 && n && rng.chance(80)) { int l = key(s[0]); int q = l - inf.kdir; if (q >= 0 && q <= inf.maxk) k = q; }
                    a.op = m < 5 ? "insv" : "ioa";
                    a.e = elem_with_key(k);
                    if (a.op == "ioa" && !per && rng.chance(35)) a.v = 8 + rng(6);
                } else {
                    int m = rng(10);
                    if (n == 0) return false;
                    int e = s[(size_t)rng(n)];
                    if (pattern == 1 && rng.chance(60)) e = s[0];
                    if (pattern == 2 && rng.chance(60)) e = s[(size_t)n - 1];
                    if (m < 6) { a.op = "erk"; a.k = key(e); }
                    else if (m < 8) { a.op = "asv"; a.e = elem_with_key(key(e)); }
                    else { a.op = "upk"; a.k = key(e); a.d = inf.km == 1 ? 0 : delta(e); }
                }
                return x.step(a);
            }
            // positional operations that respect the order
            int m = rng(8);
            if (m == 0 || m == 1) {     // append or prepend in order
                bool back = m == 0;
                int k = n == 0 ? rkey() : back ? key(s[(size_t)n - 1]) + inf.kdir * (1 + rng(3)) : key(s[0]) - inf.kdir * (1 + rng(3));
                if (k < 0 || k > inf.maxk) return false;
                a.op = back ? "push_back" : "push_front"; a.e = elem_with_key(k); a.v = rng(12);
                return x.step(a);
            }
            if (m == 2) { int k = absent(s); if (k < 0) return false; a.op = "ins_at"; a.i = lb(s, k); a.e = elem_with_key(k); return x.step(a); }
            if (n == 0) return false;
            a.i = place(n);
            if (m == 3) a.op = "era_at";
            else if (m == 4) { a.op = "set_at"; a.e = instead(s, a.i); if (!per && rng.chance(20)) a.v = 8; }
            else if (m == 5) { a.op = "upd_at"; a.d = inf.km == 1 ? instead(s, a.i) - s[(size_t)a.i] : delta(s[(size_t)a.i]); }
            else a.op = m == 6 ? "pop_back" : "pop_front";
            return x.step(a);
        }
        if (what < 3 && !per && n > 0 && rng.chance(15)) { a.op = "clear"; return x.step(a); }
        if (what < 72) {
            if (grow) {
                int m = rng(10);
                a.e = elem();
                if (pattern == 1 && rng.chance(80)) m = 0;
                if (pattern == 2 && rng.chance(80)) m = 1;
                if (m == 0 || m == 1) { a.op = m == 0 ? "push_back" : "push_front"; a.v = rng(12); }
                else { a.op = "ins_at"; a.i = pattern == 3 ? std::min(n, n / 2 + rng(2)) : rng.chance(15) ? n : rng(n + 1); }
            } else {
                if (n == 0) return false;
                int m = rng(10);
                if (pattern == 1 && rng.chance(60)) m = 1;
                if (pattern == 2 && rng.chance(60)) m = 0;
                if (m == 0) a.op = "pop_back";
                else if (m == 1) a.op = "pop_front";
                else { a.op = "era_at"; a.i = pattern == 3 ? n / 2 : place(n); }
            }
            return x.step(a);
        }
        if (n == 0) return false;
        a.i = place(n);
        int e = s[(size_t)a.i];
        if (what < 88) { a.op = "set_at"; a.e = elem(); if (!per && rng.chance(30)) a.v = 8; }
        else { a.op = "upd_at"; a.d = inf.km > 1 ? delta(e) : elem() - e; }
        return x.step(a);
    }
    int place(int n) { int m = rng(10); return m == 0 ? 0 : m == 1 ? n - 1 : rng(n); }
    int delta(int e) { int m = e - key(e) * inf.km; return val() - m; }    // to another mapped value

    // make an iterator in slot it; structural position argument i
    bool mk(int it, int h) {
        auto const& s = x.shadow(h);
        int n = (int)s.size();
        Step a; a.op = "mk"; a.it = it; a.h = h; a.v = rng(4);
        int m = rng(14);
        if (m == 0) a.how = "begin"; else if (m == 1) a.how = "end"; else if (m == 2) a.how = "rbegin"; else if (m == 3) a.how = "rend";
        else if (m == 4 && inf.ord) { a.how = "find"; a.i = rkey(); }
        else if (m == 5 && inf.ord) { a.how = "lb"; a.i = rkey(); }
        else if (m == 6 && inf.ord) { a.how = "ub"; a.i = rkey(); }
        else if (m == 7 && inf.idx) { a.how = "index"; a.i = rng(n + 1); }
        else if (m == 8 && inf.min && n) a.how = "mine";
        else if (m == 9 && inf.max && n) a.how = "maxe";
        else if (m == 10 && inf.sum && nonneg(s)) { a.how = "slb"; a.i = rng(total(s) + 2); }
        else { a.how = "step"; a.i = n ? rng(n) : 0; if (n == 0) a.how = "begin"; }
        if (a.how == "find" && !n) return false;
        return x.step(a);
    }
    int fieldsum(int e) const {
        char f = inf.sumf[0];
        int k = key(e), v = e - k * inf.km;
        return f == 'e' ? e : f == 'k' ? k : f == 'v' ? v : f == 's' ? k + v : 10 - e;
    }
    bool nonneg(std::vector<int> const& s) const { for (int e : s) if (fieldsum(e) < 0) return false; return true; }
    int total(std::vector<int> const& s) const { int t = 0; for (int e : s) t += fieldsum(e); return t; }

    bool it_edit(int it, int g) {
        int h = x.it_h(it);
        auto const& s = x.shadow(h);
        int n = (int)s.size();
        int p = x.it_p(it), rev = x.it_rev(it);
        Step a; a.it = it; a.g = g; a.v = spell(); a.keep = rng.chance(85);
        int m = rng(10);
        bool grow = n < target ? rng.chance(75) : rng.chance(25);
        bool on = p >= 0 && p < n;
        if (m < 7) a.op = grow ? "it_ins" : "it_era"; else a.op = m < 9 ? "it_set" : "it_upd";
        if (!on && a.op != "it_ins") { if (rng.chance(50)) return false; a.op = "it_ins"; }
        if (a.op == "it_ins") {
            if (!rev && p < 0) return false;
            if (inf.ord) {
                int spot = rev ? std::min(p + 1, n) : p;
                // a key that fits between the neighbours
                int lo = spot > 0 ? key(s[(size_t)spot - 1]) : inf.kdir == 1 ? -1 : inf.maxk + 1;
                int hi = spot < n ? key(s[(size_t)spot]) : inf.kdir == 1 ? inf.maxk + 1 : -1;
                int a0 = std::min(lo, hi) + 1, a1 = std::max(lo, hi) - 1;
                if (a0 > a1) return false;
                a.e = elem_with_key(a0 + rng(a1 - a0 + 1));
            } else a.e = elem();
        } else if (a.op == "it_set") { a.e = inf.ord ? instead(s, p) : elem(); if (rng.chance(30) && !inf.ord) a.v = 8; }
        else if (a.op == "it_upd") { int e = s[(size_t)p]; a.d = inf.km > 1 ? delta(e) : (inf.ord ? instead(s, p) : elem()) - e; }
        return x.step(a);
    }
    bool alias(int h) {
        auto const& s = x.shadow(h);
        int n = (int)s.size();
        if (!n) return false;
        Step a; a.op = "alias"; a.h = h; a.j = rng(n);
        if (inf.ord) { a.how = "ioa"; a.k = rng.chance(50) ? key(s[(size_t)rng(n)]) : rkey(); return x.step(a); }
        int m = rng(8);
        if (m == 0) a.how = "push_back"; else if (m == 1) a.how = "push_front";
        else if (m < 5) { a.how = "ins_at"; a.i = rng.chance(40) ? std::min(n, std::max(0, a.j + rng(3) - 1)) : rng(n + 1); }
        else { a.how = "set_at"; a.i = rng.chance(40) ? a.j : rng(n); }
        if (n > target + 6 && a.how != "set_at") return false;
        return x.step(a);
    }
    // ------------------------------------------------------------------ conversions
    bool derive(int h, char const* kind, bool move) {
        bool t = kind[0] == 'T';
        if (t ? count(true) >= nT + (move && x.is_t(h) ? 1 : 0) : count(false) >= nP) {
            int d = pick_h(t, !t);
            if (d == h || d < 0) return false;
            del(d);
        }
        int g = free_h();
        if (g < 0) return false;
        Step a; a.op = move ? "drvm" : "drv"; a.h = h; a.g = g; a.how = kind; a.v = rng(6);
        if (crowds && !move && t == x.is_t(h) && rng.chance(25)) a.n = rng.chance(10) ? 65530 + rng(20) : 1 + rng(600);
        return x.step(a);
    }
    bool crowds = false;    // also make many copies at once
    // the same element assigned again and again
    void repeat(int h) {
        auto const& s = x.shadow(h); int n = (int)s.size();
        if (!n) return;
        Step a; a.op = "set_rep"; a.h = h; a.i = rng(n); a.v = rng(2); a.n = rng.chance(40) ? 256 : rng.chance(25) || life ? 1 + rng(600) : 65536;
        a.e = inf.ord ? elem_with_key(key(s[(size_t)a.i])) : elem();
        x.step(a);
    }
    bool assign(char const* op) {
        int h = pick_h(true, true), g = pick_h(true, true);
        if (h < 0 || g < 0 || x.is_t(h) != x.is_t(g)) return false;
        Step a; a.op = op; a.h = h; a.g = g;
        return x.step(a);
    }
    // ------------------------------------------------------------------ observations
    void seq(int h, int way = -1) { if (x.live(h)) x.obs_seq(h, way < 0 ? rng(7) : way); }
    void all_seq() { for (int h = 0; h < ExecI::NH; ++h) if (x.live(h)) seq(h); }
    void q_idx(int h) {
        if (!x.live(h)) return; x.obs_idx(h, 16); }
    void q_key(int h) {
        if (!x.live(h)) return;
        auto const& s = x.shadow(h);
        std::vector<int> pr;
        int lim = std::min(inf.maxk, 2 * small + 4);
        if (lim <= 12 || rng.chance(8)) for (int k = std::max(-1, inf.km == 1 && !inf.neg ? 0 : -1); k <= std::min(lim, 60); ++k) pr.push_back(k);
        else { for (int j = 0; j < 6; ++j) pr.push_back(rkey()); if (!s.empty()) { pr.push_back(key(s.front())); pr.push_back(key(s.back())); pr.push_back(key(s[(size_t)rng((int)s.size())])); pr.push_back(key(s.front()) - 1); pr.push_back(key(s.back()) + 1); pr.push_back(std::max(0, key(s.back()) - 1)); } }
        std::vector<int> ok;
        for (int k : pr) if (k >= (inf.neg ? -1 : 0) && k <= inf.maxk) ok.push_back(k);
        x.obs_key(h, ok);
    }
    void q_sum(int h) {
        if (!x.live(h)) return;
        auto const& s = x.shadow(h);
        std::vector<int> tg;
        if (nonneg(s)) {
            int t = total(s);
            tg = {0, 1, t, t + 1, t > 0 ? t - 1 : 0};
            int acc = 0;
            for (int e : s) { acc += fieldsum(e); if (rng.chance(s.size() < 10 ? 70 : 15)) { tg.push_back(acc); if (rng.chance(30)) tg.push_back(acc + 1); } if (tg.size() > 16) break; }
            for (int j = 0; j < 2; ++j) tg.push_back(rng(t + 2));
        }
        x.obs_sum(h, 14, tg);
    }
    void q_mm(int h) {
        if (!x.live(h)) return;
        int n = (int)x.shadow(h).size();
        if (n == 0) { x.obs_emptymm(h); return; }
        std::vector<std::array<int, 3>> r;
        if (n <= 5) { for (int a = 0; a < n; ++a) for (int b = a; b < n; ++b) r.push_back({a, b, rng(4)}); }
        else {
            r.push_back({0, n - 1, rng(4)});
            for (int j = 0; j < 7; ++j) { int a = rng(n), b = rng(n); if (rng.chance(40)) b = std::min(n - 1, a + rng(4)); if (a > b) std::swap(a, b); r.push_back({a, b, rng(4)}); }
        }
        x.obs_mm(h, r);
    }
    void q_jump(int h) {
        if (!x.live(h)) return;
        int n = (int)x.shadow(h).size();
        std::vector<std::array<int, 4>> js;
        int m = n <= 6 ? 30 : 16;
        for (int j = 0; j < m; ++j) {
            int p = rng(n + 2) - 1;
            int d;
            int w = rng(8);
            if (w < 3) d = rng(5) - 2;
            else if (w < 5) { int q = rng(n + 4) - 2; d = q - p; }
            else if (w == 5) d = rng(2) ? n + 3 + rng(5) : -(n + 3 + rng(5));
            else if (w == 6) d = rng(2) ? n - p : -1 - p;
            else d = rng(2 * n + 3) - n - 1;
            int kind = rng(4), way = rng(7);
            if (kind >= 2 && rng.chance(50)) d = -d;
            if (w == 5 && rng.chance(10)) d = rng(2) ? 1000000000 : -1000000000;
            if (std::abs(d) > 2 * n + 10 && way >= 4) way = rng(4);
            js.push_back({p, d, kind, way});
        }
        x.obs_jump(h, js);
    }
    void q_cmp(int h) {
        if (!x.live(h)) return;
        int n = (int)x.shadow(h).size();
        std::vector<std::array<int, 3>> cs;
        if (n <= 3) { for (int p = -1; p <= n; ++p) for (int q = -1; q <= n; ++q) for (int k = 0; k < 5; ++k) cs.push_back({p, q, k}); }
        else {
            for (int j = 0; j < 20; ++j) { int p = rng(n + 2) - 1, q = rng.chance(40) ? std::max(-1, std::min(n, p + rng(5) - 2)) : rng(n + 2) - 1; cs.push_back({p, q, rng(5)}); }
            int m = rng(n);
            for (int k = 0; k < 4; ++k) { cs.push_back({0, n, k}); cs.push_back({n, 0, k}); cs.push_back({-1, n - 1, k}); cs.push_back({n - 1, -1, k}); cs.push_back({m, m, k}); cs.push_back({-1, -1, k}); cs.push_back({n, n, k}); }
        }
        x.obs_cmp(h, cs);
    }
    void queries(int h) {
        if (inf.idx) q_idx(h);
        if (inf.ord) q_key(h);
        if (inf.sum) q_sum(h);
        if (inf.min || inf.max) q_mm(h);
    }
    void some_query(int h) {
        int m = rng(4);
        if (m == 0 && inf.idx) q_idx(h); else if (m == 1 && inf.ord) q_key(h); else if (m == 2 && inf.sum) q_sum(h); else if (m == 3 && (inf.min || inf.max)) q_mm(h); else seq(h);
    }
    void all_iters() { for (int i = 0; i < ExecI::NI; ++i) x.obs_it(i); }
    int pick_it(bool t, bool p) {
        int c[ExecI::NI], n = 0;
        for (int i = 0; i < ExecI::NI; ++i) if (x.it_live(i) && ((t && x.is_t(x.it_h(i))) || (p && !x.is_t(x.it_h(i))))) c[n++] = i;
        return n ? c[rng(n)] : -1;
    }
    bool step1(char const* op, int h) { Step a; a.op = op; a.h = h; return x.step(a); }

    // ------------------------------------------------------------------ runs
    void begin_run() {
        x.reset();
        {
            Event E("Cfg");
            E.str("name", inf.name); E.num("km", inf.km); E.num("mp", inf.km > 1 && (inf.mapped || !inf.ord)); E.num("kdir", inf.kdir); E.str("sumf", inf.sumf); E.str("minf", inf.minf); E.str("maxf", inf.maxf);
            E.num("mindir", inf.mindir); E.num("maxdir", inf.maxdir); E.num("safe", inf.safe); E.num("alc", inf.alc);
            E.num("hmin", inf.min); E.num("hmax", inf.max); E.num("lc", inf.leafcap); E.num("ic", inf.intcap); E.num("md", inf.maxdepth);
            E.num("lb", inf.lb); E.num("ib", inf.ib); E.num("lim", inf.lim); E.num("mlb", inf.leafbytes); E.num("mnb", inf.nodebytes);
            E.done();
        }
        static int const sizes[] = {3, 6, 10, 16, 26, 40};
        small = sizes[rng(6)];
        if (inf.big > 60) small = rng.chance(35) ? sizes[rng(6)] : inf.big / (1 + rng(4));
        else small = std::min(small, inf.big);
        target = small;
        range = rng.chance(40) ? 4 : rng.chance(50) ? 12 : 1 << 20;
        int cap = inf.km > 1 ? inf.maxv + 1 : inf.ord ? inf.maxk + 1 : inf.maxv + 1;
        range = std::min(range, cap);
        pattern = rng(7);
    }
    int new_tree(char const* kind) { Step a; a.op = "new"; a.h = free_h(); a.how = kind; x.step(a); return a.h; }
    void grow_bulk(int h, int n) {      // cheap growth of large trees
        if (n <= 0) return;
        if (inf.ord) { for (int j = 0; j < n; ++j) edit(h); return; }
        Step a; a.op = "bulk_back"; a.h = h; a.n = n;
        if (inf.km == 1) { a.e = rng(3); a.d = rng(3); a.j = std::min(inf.maxv - 3, 97); }
        else { a.e = elem(); a.d = 0; }
        x.step(a);
    }
    void retarget() { if (rng.chance(4)) target = rng.chance(30) ? 0 : rng.chance(50) ? small : rng(small + 1); if (rng.chance(3)) pattern = rng(7); }
    int length() { return inf.big > 60 && small > 60 ? 120 : 40 + rng(160); }

    void run_seq() {
        nT = 2; nP = 2;
        int h = new_tree("T");
        if (small > 60) grow_bulk(h, small * 3 / 4);
        int len = length();
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            h = pick_h(true, false);
            if (h < 0) h = new_tree("T");
            int m = rng(100);
            if (m < 62) edit(h);
            else if (m < 82) { int it = rng(3); if (!x.it_live(it) || x.it_h(it) != h) mk(it, h); else if (rng.chance(20)) { Step a; a.op = "adv"; a.it = it; a.n = rng(5) - 2; a.v = 1; x.step(a); } if (x.it_live(it)) it_edit(it, -1); }
            else if (m < 88) alias(h);
            else if (m < 92) derive(h, rng.chance(50) ? "P" : "T", false);
            else if (m < 94) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", rng.chance(50)); }
            else if (m < 95 && count(true) > 1) del(h);
            if (x.live(h) && rng.chance(small > 60 ? 12 : 45)) seq(h);
        }
        for (int i = 0; i < ExecI::NH; ++i) if (x.live(i) && x.is_t(i)) seq(i);
    }
    // edits on mutable (and, if pers, immutable) trees; after each, obs(h)
    template <typename F> void run_edits(bool pers, int obs_pct, F&& obs) {
        nT = 2; nP = 3;
        int h = new_tree("T");
        if (small > 60) { if (inf.ord) { int keep = pattern; pattern = 1; for (int j = 0; j < small * 2 / 3; ++j) { Step a; a.op = "ioa"; a.h = h; a.v = 2; int k = inf.kdir == 1 ? j : inf.maxk - j; if (rng.chance(25)) k = rkey(); a.e = elem_with_key(k); x.step(a); } pattern = keep; } else grow_bulk(h, small * 3 / 4); }
        obs(h);
        int len = length();
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int m = rng(100);
            int at = -1;
            if (pers && m < 30) {
                int p = pick_h(false, true);
                if (p < 0) { int t = pick_h(true, false); if (t >= 0) derive(t, "P", false); p = pick_h(false, true); }
                if (p < 0) continue;
                int g = room_p(p);
                if (g < 0) continue;
                if (rng.chance(75)) { if (edit(p, g)) at = g; }
                else { int it = rng(3); if (mk(it, p) && it_edit(it, g)) at = g; }
                if (!x.live(g)) at = -1;
            } else if (m < 38) {
                int q = rng(3);
                int s = pick_h(true, true);
                if (s >= 0) derive(s, q == 0 ? "T" : "P", rng.chance(15));
                if (pick_h(true, false) < 0) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", false); else new_tree("T"); }
            } else if (m < 48) {
                int t = pick_h(true, false); if (t < 0) continue;
                int it = rng(3);
                if (!x.it_live(it) || x.it_h(it) != t) mk(it, t);
                if (x.it_live(it) && x.it_h(it) == t && it_edit(it, -1)) at = t;
            } else {
                int t = pick_h(true, false);
                if (t < 0) t = new_tree("T");
                if (edit(t)) at = t;
            }
            if (at >= 0 && x.live(at) && rng.chance(obs_pct)) obs(at);
            else if (rng.chance(6)) { int q = pick_h(true, true); if (q >= 0) obs(q); }
        }
        for (int i = 0; i < ExecI::NH; ++i) if (x.live(i)) obs(i);
    }
    void run_pers() {       // immutable trees stay as they were
        nT = 2; nP = 6; crowds = true;
        int t0 = new_tree("T");
        if (small > 60) grow_bulk(t0, small * 3 / 4);
        int len = length();
        auto baseline = [&](int g) { seq(g); if (rng.chance(60)) queries(g); if (rng.chance(50)) mk(rng(ExecI::NI), g); };
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int m = rng(100);
            if (m < 14) { int t = pick_h(true, false); if (t >= 0) { int before = count(false); (void)before; int g = room_p(); if (g >= 0) { Step a; a.op = "drv"; a.h = t; a.g = g; a.how = "P"; if (x.step(a)) baseline(g); } } }
            else if (m < 24) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", rng.chance(15)); }
            else if (m < 46) {
                int p = pick_h(false, true);
                if (p < 0) continue;
                int g = room_p(p);
                if (g < 0) continue;
                bool ok;
                if (rng.chance(70)) ok = edit(p, g); else { int it = rng(3); ok = mk(it, p) && it_edit(it, g); }
                if (ok && x.live(g)) { baseline(g); if (rng.chance(50)) seq(p); }
            } else if (m < 52) { int t = pick_h(true, false); if (t >= 0 && !inf.ord) alias(t); }
            else if (m < 54) { int p = pick_h(true, true); if (p >= 0 && count(x.is_t(p)) > 1) del(p); }
            else if (m < 56) { int t = pick_h(true, false); if (t >= 0 && rng.chance(40)) step1("clear", t); }
            else if (m < 58) assign(rng.chance(50) ? "asg" : "asgm");
            else if (m < 60) { int p = pick_h(false, true); if (p >= 0 && count(false) < nP) derive(p, "P", rng.chance(30)); }
            else { int t = pick_h(true, false); if (t < 0) t = new_tree("T"); int c = 1 + rng(3); while (c--) { if (rng.chance(75)) edit(t); else { int it = 4 + rng(3); if (mk(it, t)) it_edit(it, -1); } } }
            if (rng.chance(25)) { int p = pick_h(false, true); if (p >= 0) { if (rng.chance(60)) seq(p); else some_query(p); } }
            if (rng.chance(15)) { int i = pick_it(false, true); if (i >= 0) { if (rng.chance(30)) { Step a; a.op = "adv"; a.it = i; a.n = rng(7) - 3; x.step(a); } else x.obs_it(i); } }
        }
        for (int h = 0; h < ExecI::NH; ++h) if (x.live(h) && !x.is_t(h)) { seq(h); queries(h); }
        for (int i = 0; i < ExecI::NI; ++i) if (x.it_live(i) && !x.is_t(x.it_h(i))) x.obs_it(i);
    }
    void run_conv() {
        nT = 4; nP = 4; crowds = true;
        int t0 = new_tree("T");
        int p0 = new_tree("P"); seq(p0);
        if (small > 60) grow_bulk(t0, small * 3 / 4); else for (int j = rng(small + 1); j > 0; --j) edit(t0);
        int len = length() / 2 + 20;
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int m = rng(100);
            int h = pick_h(true, true);
            if (h < 0) { new_tree("T"); continue; }
            if (m < 40) derive(h, rng.chance(60) ? "T" : "P", rng.chance(25));
            else if (m < 52) assign(rng(3) == 0 ? "swp" : rng(2) ? "asg" : "asgm");
            else if (m < 55) { if (count(x.is_t(h)) > 1) del(h); }
            else if (m < 58) { if (x.is_t(h) && rng.chance(30)) step1("clear", h); }
            else {
                int c = 1 + rng(3);
                while (c-- && x.live(h)) {
                    if (x.is_t(h)) { if (rng.chance(70)) edit(h); else { int it = rng(4); if (mk(it, h)) it_edit(it, -1); } }
                    else { int g = room_p(h); if (g >= 0) edit(h, g); }
                }
            }
            if (rng.chance(small > 60 ? 20 : 45)) all_seq();
            if (rng.chance(10)) { int q = pick_h(true, true); if (q >= 0) queries(q); }
        }
        all_seq();
    }
    void run_peq() {        // every edit of an immutable tree, with all queries on the result
        nT = 1; nP = 5;
        int p = new_tree("P");
        int len = length();
        if (small > 60) { int t = new_tree("T"); if (!inf.ord) grow_bulk(t, small * 3 / 4); else for (int j = 0; j < small * 2 / 3; ++j) edit(t); derive(t, "P", true); }
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int c = pick_h(false, true);
            if (rng.chance(70) && x.live(p) && !x.is_t(p)) c = p;
            if (c < 0) { p = new_tree("P"); continue; }
            int g = room_p(c);
            if (g < 0) continue;
            bool ok;
            if (rng.chance(60)) ok = edit(c, g);
            else {
                int it = rng(4);
                ok = (x.it_live(it) && x.it_h(it) == c && rng.chance(60)) || mk(it, c);
                if (ok && rng.chance(20)) { Step a; a.op = "adv"; a.it = it; a.n = rng(5) - 2; x.step(a); }
                ok = ok && it_edit(it, g);
            }
            if (!ok || !x.live(g)) continue;
            if (rng.chance(small > 60 ? 15 : 50)) seq(g);
            if (rng.chance(small > 60 ? 10 : 25)) queries(g);
            if (rng.chance(20)) seq(c);
            p = g;
        }
        for (int h = 0; h < ExecI::NH; ++h) if (x.live(h)) { seq(h); queries(h); }
    }
    void run_stab() {       // iterators survive what they are documented to survive
        nT = 2; nP = 4;
        int t0 = new_tree("T");
        for (int j = rng(small + 1); j > 0; --j) edit(t0);
        int len = length();
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int m = rng(100);
            int live = 0;
            for (int i = 0; i < ExecI::NI; ++i) live += x.it_live(i);
            if (live < 4 && m < 60) { int h = pick_h(true, true); if (h >= 0) mk(rng(ExecI::NI), h); continue; }
            if (m < 16) {        // share structure so that the next edit copies
                int h = pick_h(true, false);
                if (h >= 0) derive(h, rng.chance(75) ? "P" : "T", false);
            } else if (m < 36) {    // in-place edits through any interface
                int t = pick_h(true, false);
                if (t < 0) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", false); else new_tree("T"); continue; }
                auto const& s = x.shadow(t); int n = (int)s.size();
                if (n == 0) { edit(t); continue; }
                Step a; a.h = t; a.v = spell();
                int q = rng(4); a.i = place(n);
                if (q == 0 && inf.ord) { a.op = "asv"; a.e = elem_with_key(key(s[(size_t)a.i])); }
                else if (q == 1 && inf.ord) { a.op = "upk"; a.k = key(s[(size_t)a.i]); a.d = inf.km == 1 ? 0 : delta(s[(size_t)a.i]); }
                else if (q < 3) { a.op = "set_at"; a.e = inf.ord ? instead(s, a.i) : elem(); if (rng.chance(30)) a.v = 8; }
                else { a.op = "upd_at"; int e = s[(size_t)a.i]; a.d = inf.km > 1 ? delta(e) : inf.ord ? 0 : elem() - e; }
                if (rng.chance(8)) { all_iters(); if (rng.chance(70)) derive(t, rng.chance(75) ? "P" : "T", false); if (rng.chance(15)) x.step(a); if (x.live(t)) repeat(t); all_iters(); } else x.step(a);
            } else if (m < 62) { int i = pick_it(true, false); if (i >= 0) it_edit(i, -1); }
            else if (m < 74) { int i = pick_it(false, true); if (i >= 0) { int g = room_p(x.it_h(i)); if (g >= 0) { if (rng.chance(50)) it_edit(i, g); else edit(x.it_h(i), g); } } }
            else if (m < 86) { int i = pick_it(true, true); if (i >= 0) { Step a; a.op = "adv"; a.it = i; a.n = rng(9) - 4; a.v = rng(5); x.step(a); } }
            else if (m < 90) { int i = pick_it(true, true); if (i >= 0) { Step a; a.op = "cpit"; a.it = i; a.jt = rng(ExecI::NI); x.step(a); } }
            else if (m < 93) { int h = pick_h(true, false); if (h >= 0 && rng.chance(40)) edit(h); }
            else if (m < 96) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", false); }
            else { int h = pick_h(true, true); if (h >= 0 && count(x.is_t(h)) > 1) del(h); }
            if (rng.chance(60)) all_iters();
            if (rng.chance(10)) { int h = pick_h(true, true); if (h >= 0) seq(h, 0); }
        }
        all_iters(); all_seq();
    }
    void run_proxy() {
        nT = 2; nP = 2;
        int t0 = new_tree("T");
        for (int j = 2 + rng(small + 1); j > 0; --j) edit(t0);
        int len = length();
        for (int j = 0; j < len && !done(); ++j) {
            int t = pick_h(true, false);
            if (t < 0) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", false); else new_tree("T"); continue; }
            auto const& s = x.shadow(t); int n = (int)s.size();
            int m = rng(100);
            if (n == 0 || m < 12) { retarget(); edit(t); }
            else if (m < 50) {
                Step a; a.op = "px"; a.h = t; a.i = place(n); a.v = rng(4); a.n = rng(15);
                int old = inf.km == 1 ? s[(size_t)a.i] : s[(size_t)a.i] - key(s[(size_t)a.i]) * inf.km;
                if (!operand(old, a.n, a.d)) continue;
                x.step(a);
            } else if (m < 62) { Step a; a.op = "pxq"; a.h = t; a.i = place(n); a.j = rng.chance(20) ? a.i : rng(n); a.v = rng(3); a.d = rng.chance(40) ? s[(size_t)rng(n)] : val(); if (std::abs(a.d) > 30000) a.d = rng(100); x.step(a); }
            else if (m < 72) { Step a; a.op = "pxs"; a.h = t; a.g = rng.chance(70) ? t : pick_h(true, false); int n2 = (int)x.shadow(a.g).size(); if (!n2) continue; a.i = place(n); a.j = rng.chance(15) ? std::min(a.i, n2 - 1) : rng(n2); a.v = rng(2); x.step(a); }
            else if (m < 84) {
                static char const* algs[] = {"sort", "rsort", "reverse", "rotate", "fill", "addall"};
                Step a; a.op = "alg"; a.h = t; a.how = algs[rng(rng.chance(70) ? 4 : 6)];
                a.i = rng.chance(50) ? 0 : rng(n + 1); a.j = rng.chance(50) ? n : a.i + rng(n + 1 - a.i);
                a.d = a.how == "rotate" ? rng(a.j - a.i + 1) : a.how == "fill" ? val() : rng(3);
                if (a.how == "addall" || a.how == "fill") { a.j = std::min(a.j, a.i + 6); }
                if (a.how == "addall") { bool okk = true; for (int q = a.i; q < a.j; ++q) if (s[(size_t)q] + a.d > inf.maxv) okk = false; if (!okk) continue; }
                x.step(a);
            } else if (m < 92) derive(t, rng.chance(50) ? "P" : "T", false);
            else if (m < 95) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", false); }
            if (rng.chance(45) && x.live(t)) seq(t);
            if (rng.chance(30) && x.live(t)) queries(t);
        }
        for (int h = 0; h < ExecI::NH; ++h) if (x.live(h)) { seq(h); if (x.is_t(h)) queries(h); }
    }
    // an operand for which operator n on value old is defined and stays within the value range
    bool operand(int old, int n, int& b) {
        int lo = inf.km > 1 || !inf.neg ? 0 : -inf.maxv, hi = inf.maxv;
        for (int tries = 0; tries < 30; ++tries) {
            b = rng.chance(50) ? rng(8) : rng(range);
            if (inf.neg && rng.chance(25)) b = -b;
            long r;
            switch (n) {
                case 0: r = (long)old + b; break; case 1: r = (long)old - b; break; case 2: r = (long)old * b; break;
                case 3: if (b == 0) continue; r = old / b; break;
                case 4: if (b == 0) continue; r = old % b; break;
                case 5: case 6: case 7: if (old < 0 || b < 0) continue; r = n == 5 ? old & b : n == 6 ? old | b : old ^ b; break;
                case 8: case 9: if (old < 0 || b < 0 || b > 6) continue; r = n == 8 ? (long)old << b : old >> b; break;
                case 10: case 12: r = old + 1; b = 1; break; case 11: case 13: r = old - 1; b = 1; break;
                default: r = b;
            }
            if (r < lo || r > hi) continue;
            return true;
        }
        return false;
    }
    void run_iter() {
        nT = 2; nP = 2;
        int t0 = new_tree("T"); q_jump(t0);
        int len = length() / 2;
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int m = rng(100);
            int h = pick_h(true, false);
            if (h < 0) h = new_tree("T");
            if (m < 60) edit(h);
            else if (m < 75) { int it = rng(3); if (!x.it_live(it)) mk(it, h); if (x.it_live(it)) { it_edit(it, x.is_t(x.it_h(it)) ? -1 : room_p(x.it_h(it))); for (int c = 0; c < 3 && x.it_live(it); ++c) { Step a; a.op = "adv"; a.it = it; a.n = c ? rng(5) - 2 : rng(2) ? 1 : -1; a.v = rng(5); x.step(a); } } }
            else if (m < 85) derive(h, "P", false);
            else if (m < 90) { int p = pick_h(false, true); if (p >= 0) derive(p, "T", false); }
            else { int p = pick_h(false, true); if (p >= 0) { q_jump(p); } }
            if (rng.chance(50) && x.live(h)) { if (rng.chance(is("cmp") ? 85 : 0)) q_cmp(h); else q_jump(h); }
            if (rng.chance(is("cmp") ? 10 : 30)) { int q = pick_h(true, true); if (q >= 0) { seq(q); if (is("cmp")) q_cmp(q); } }
            if (is("cmp") && rng.chance(25)) { int a = pick_h(true, true), b = pick_h(true, true); if (a >= 0 && b >= 0 && a != b && x.is_t(a) == x.is_t(b)) x.obs_alien(a, b); }
        }
        for (int h = 0; h < ExecI::NH; ++h) if (x.live(h)) { if (is("cmp")) q_cmp(h); else { q_jump(h); for (int w = 0; w < 7; ++w) seq(h, w); } }
    }
    // a call that must not work, or that is made to throw in the middle
    bool fail_once(int h, bool keyed) {
        auto const& s = x.shadow(h); int n = (int)s.size();
        Step a; a.h = h;
        if (keyed && inf.ord && inf.safe) {
            int k = absent(s); if (k < 0) return false;
            a.v = spell(); a.g = x.is_t(h) ? -1 : room_p(h); if (!x.is_t(h) && a.g < 0) return false;
            int q = rng(5);
            if (q == 0) { a.op = "asv"; a.e = elem_with_key(k); }
            else if (q == 1) { a.op = "erk"; a.k = k; }
            else if (q == 2) { a.op = "upk"; a.k = k; a.d = 0; }
            else if (q == 3) { if (n == 0 || inf.mapped) return false; a.op = "upkbad"; a.k = key(s[(size_t)rng(n)]); a.d = a.k < inf.maxk ? inf.km : -inf.km; }
            else { if (n == 0) return false; a.op = "proxybad"; a.k = key(s[(size_t)rng(n)]); int k2 = a.k; while (k2 == a.k) k2 = rkey(); a.e = elem_with_key(k2); }
            return x.step(a);
        }
        if (!n) return false;
        a.op = "throw"; a.i = place(n); a.k = key(s[(size_t)a.i]); a.how = rng(3) == 0 && inf.ord ? "key" : rng(2) && inf.idx ? "idx" : "it";
        return x.step(a);
    }
    void run_fail() {
        nT = 2; nP = 4;
        int t0 = new_tree("T"); new_tree("P");
        if (small > 60) grow_bulk(t0, small / 2); else for (int j = rng(small + 1); j > 0; --j) edit(t0);
        int len = length();
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int h = pick_h(true, true);
            if (h < 0) { new_tree("T"); continue; }
            auto const& s = x.shadow(h); int n = (int)s.size();
            int m = rng(100);
            bool bad = false;
            if (m < 30) {
                if (x.is_t(h)) edit(h); else { int g = room_p(h); if (g >= 0) edit(h, g); }
            } else if ((m < 50 && inf.ord && inf.safe) || (m < 64 && n > 0)) bad = fail_once(h, m < 50);
            else if (m < 90) derive(h, rng.chance(50) ? "T" : "P", false);
            else if (m < 94) { if (n == 0) x.obs_emptymm(h); else { int b = pick_h(true, true); if (b >= 0 && b != h && x.is_t(b) == x.is_t(h)) x.obs_alien(h, b); } }
            else if (m < 97 && inf.ord) q_key(h);
            if (bad) { all_seq(); if (rng.chance(30)) queries(h); }
        }
        all_seq();
    }
    void run_cost() {
        nT = 3; nP = 5;
        int t0 = new_tree("T");
        if (small > 60) { if (!inf.ord) grow_bulk(t0, small * 3 / 4); }
        int len = length();
        for (int j = 0; j < len && !done(); ++j) {
            retarget();
            int m = rng(100);
            int h = pick_h(true, true);
            if (h < 0) { new_tree("T"); continue; }
            if (m < 25) { int t = pick_h(true, false); if (t >= 0) edit(t); }
            else if (m < 40) {      // repeated edits along one path
                int t = pick_h(true, false); if (t < 0) continue;
                auto const& s = x.shadow(t); int n = (int)s.size(); if (!n) continue;
                int i = place(n);
                for (int c = 0; c < 3; ++c) { Step a; a.h = t; a.i = i; int e = s[(size_t)i]; a.v = rng(3); if (rng.chance(50)) { a.op = "set_at"; a.e = inf.ord ? instead(s, i) : elem(); } else { a.op = "upd_at"; a.d = inf.km > 1 ? delta(e) : (inf.ord ? instead(s, i) : elem()) - e; } x.step(a); }
            }
            else if (m < 65) { int p = pick_h(false, true); if (p < 0) { derive(h, "P", false); continue; } int g = room_p(p); if (g >= 0) { if (rng.chance(75)) edit(p, g); else { int it = rng(3); if (mk(it, p)) it_edit(it, g); } } }
            else if (m < 80) derive(h, rng.chance(50) ? "T" : "P", rng.chance(20));
            else if (m < 86) { int it = rng(4); if (mk(it, h) && x.is_t(h)) it_edit(it, -1); }
            else if (m < 90) assign(rng(3) == 0 ? "swp" : rng(2) ? "asg" : "asgm");
            else if (m < 93) { int i = pick_it(true, true); if (i >= 0) { Step a; a.op = "adv"; a.it = i; a.n = rng(5) - 2; x.step(a); } }
            else if (m < 95) { if (count(x.is_t(h)) > 1) del(h); }
            if (rng.chance(10)) seq(h, 0);
        }
    }
    void run_depth() {
        nT = 1; nP = 2;
        int h = new_tree("T"); x.obs_lim(h);
        int n = rng.chance(30) ? inf.big * 3 : small;
        int mode = rng(5);
        // what fits for certain: full nodes when appending, half-full ones otherwise
        long half = (inf.leafcap + 1) / 2, whole = inf.leafcap;
        for (int d = 1; d < inf.maxdepth; ++d) { half = std::min(100000L, half * ((inf.intcap + 1) / 2)); whole = std::min(100000L, whole * inf.intcap); }
        bool app = mode == 4 || (mode == 0 && !inf.ord);
        if (app && rng.chance(40)) n = (int)std::min(whole, 3000L);
        n = (int)std::min<long>(n, app ? whole : half * 2);
        if (mode == 4 && !inf.ord) { grow_bulk(h, n); x.obs_lim(h); }
        for (int j = 0; j < n && !done() && mode != 4; ++j) {
            Step a; a.h = h; a.v = rng(3); a.force = 1;
            auto const& s = x.shadow(h); int c = (int)s.size();
            if (inf.ord) { int k = mode == 0 ? (inf.kdir == 1 ? j : inf.maxk - j) : mode == 1 ? (inf.kdir == 1 ? n - j : j) : rkey(); if (k < 0 || k > inf.maxk) break; a.op = "ioa"; a.e = elem_with_key(k); a.v = 2; }
            else if (mode == 0) { a.op = "push_back"; a.e = elem(); }
            else if (mode == 1) { a.op = "push_front"; a.e = elem(); }
            else if (mode == 2) { a.op = "ins_at"; a.i = c / 2; a.e = elem(); }
            else { a.op = "ins_at"; a.i = rng(c + 1); a.e = elem(); }
            x.step(a);
            if (rng.chance(5)) x.obs_lim(h);
        }
        x.obs_lim(h); if (n < 200) seq(h, 0);
        // erase down to nothing in some order
        int way = rng(4);
        int c;
        while ((c = (int)x.shadow(h).size()) > 0 && !done()) {
            Step a; a.h = h;
            if (way == 0) a.op = "pop_back"; else if (way == 1) a.op = "pop_front"; else { a.op = "era_at"; a.i = way == 2 ? rng(c) : c / 2; }
            if (rng.chance(20)) edit(h); else x.step(a);
            if (rng.chance(4)) x.obs_lim(h);
            if (rng.chance(1)) break;
        }
        x.obs_lim(h); seq(h, 0);
        target = 5;
        for (int j = 0; j < 8 && !done(); ++j) edit(h);
        seq(h, 0); x.obs_lim(h);
    }
    // large trees: `n' elements at once, then a few edits here and there, with queries of one kind
    void run_huge(std::string const& what) {
        nT = 2; nP = 2;
        int n = inf.big >= 4000 ? inf.big : 66000 + rng(9000);
        if (inf.big < 4000 && inf.ord) n = std::min(n, inf.maxk - 200);
        int h = new_tree("T");
        Step b; b.op = "bulk_back"; b.h = h; b.force = 1;
        bool deep = inf.big >= 4000;
        if (inf.ord) { b.e = elem_with_key(inf.kdir == 1 ? 100 : inf.maxk - 100); b.d = inf.kdir * inf.km; }
        else { b.e = inf.km > 1 ? elem() : 1 + rng(20); b.d = inf.km > 1 ? 0 : 7; b.j = 61; }
        int parts = deep ? 11 : 4;
        for (int j = 0; j < parts; ++j) {
            // always into the middle: nodes stay half full and the tree becomes deep
            int c = (int)x.shadow(h).size();
            b.n = deep ? std::max(4, std::min(c, n - c)) : n / parts; b.i = deep ? c / 2 + rng(c / 20 + 1) : 0;
            if (!inf.ord) { b.e = inf.km > 1 ? elem() : 1 + rng(20); }
            x.step(b);
            if (inf.ord) b.e += b.d * b.n;
        }
        range = inf.km == 1 && !inf.ord ? std::min(inf.maxv + 1, 50) : range;
        small = inf.ord ? n / 2 : n; target = n;
        auto look = [&](int g) {
            if (what == "idx") q_idx(g); else if (what == "key") q_key(g); else if (what == "sum") q_sum(g); else if (what == "mm") q_mm(g);
            else if (what == "iter") q_jump(g); else if (what == "cmp") q_cmp(g); else if (what == "depth") x.obs_lim(g);
        };
        look(h); x.obs_lim(h);
        for (int j = 0; j < (deep ? 60 : 14) && !done(); ++j) {
            int m = rng(10);
            int t = pick_h(true, false);
            if (t < 0) break;
            if (m < 6) { edit(t); look(t); }
            else if (m == 6) { int it = rng(3); if (mk(it, t)) it_edit(it, -1); look(t); }
            else if (m == 7) { derive(t, "P", false); }
            else { int p = pick_h(false, true); if (p >= 0) { int g = room_p(p); if (g >= 0 && edit(p, g) && x.live(g)) { look(g); } look(p); } else derive(t, "P", false); }
        }
        seq(h, rng(7));
    }
    // insertions until the tree would have to become deeper than it may, and what is there afterwards
    void run_over(bool mut) {
        nT = 1; nP = 3; range = 50;
        int h = new_tree(mut ? "T" : "P");
        int pat = rng(4);
        for (int j = 0; j < 200 && !done(); ++j) {
            auto const& s = x.shadow(h); int n = (int)s.size();
            Step a; a.h = h; a.v = rng(3); a.force = 1;
            if (!mut) { a.g = free_h(); }
            if (inf.ord) { a.op = rng.chance(50) ? "insv" : "ioa"; int k = pat == 0 ? n : pat == 1 ? 40 - n : rng(41); if (k < 0) k = 0; a.e = elem_with_key(k); a.v = 2; }
            else if (pat == 0) { a.op = "push_back"; a.e = val(); } else if (pat == 1) { a.op = "push_front"; a.e = val(); }
            else { a.op = "ins_at"; a.i = rng(n + 1); a.e = val(); }
            if (!x.step(a)) continue;
            if (mut) { if ((int)s.size() == n && !(inf.ord && has(s, key(a.e)))) { seq(h, 0); queries(h); break; } }
            else if (x.live(a.g)) { del(h); h = a.g; }
            else { seq(h, 0); queries(h); Step b; b.h = h; b.g = free_h(); if (n && !inf.ord) { b.op = "era_at"; b.i = rng(n); x.step(b); if (x.live(b.g)) { seq(b.g, 0); seq(h, 1); } } break; }
        }
    }
    // ------------------------------------------------------------------ walks
    // Every transition of the node-level model (BppNode.tla) as a step of the library: the model says which edits make
    // all the shapes its tree can take, this goes there and everywhere from there, in any of the ways there are to do it.
    struct Edge { char op; int pos, to; bool done; int tries; };
    std::vector<std::vector<Edge>> graph;
    std::vector<char> marked;
    long left = 0, walked = 0;
    int part = 0, parts = 1;        // of several processes that share the transitions
    void load(std::string const& file) {
        std::ifstream f(file);
        std::string name = inf.name;
        if (inf.ord && name != "setu32") inf.maxk = std::max(inf.maxk, 60000);     // room for keys in between
        int n = 0; long m = 0; std::string marks;
        f >> n >> m >> marks;
        graph.resize((size_t)n);
        for (char c : marks) marked.push_back(c == '1');
        int a, b, p; char o;
        while (f >> a >> o >> p >> b) graph[(size_t)a].push_back({o, p, b, false, 0});
        for (auto& v : graph) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)rng((int)i)]);
        for (size_t s = 0; s < graph.size(); ++s) for (auto& e : graph[s]) left += wanted((int)s, e);
    }
    bool immutable() const { return is("peq"); }        // walk with immutable trees: from shared shapes to shared shapes
    bool wanted(int s, Edge const& e) const { return e.op == 'j' && !inf.idx ? false : (s * 131 + e.op * 17 + e.pos * 7) % parts != part ? false : immutable() ? e.op != 's' && marked[(size_t)s] : true; }
    bool open(int s, Edge const& e) const { return wanted(s, e) && !e.done && e.tries < 4; }
    // the first step of a shortest way to a transition not taken yet
    Edge* towards(int s) {
        std::vector<int> from(graph.size(), -2), queue{s};
        std::vector<Edge*> via(graph.size(), nullptr);
        from[(size_t)s] = -1;
        for (size_t q = 0; q < queue.size(); ++q) {
            int c = queue[q];
            for (auto& e : graph[(size_t)c]) if (open(c, e)) {
                Edge* r = &e;
                while (c != s) { r = via[(size_t)c]; c = from[(size_t)c]; }
                return r;
            }
            for (auto& e : graph[(size_t)c]) if (from[(size_t)e.to] == -2 && e.tries < 4 && (e.op != 'j' || inf.idx)) { from[(size_t)e.to] = c; via[(size_t)e.to] = &e; queue.push_back(e.to); }
        }
        return nullptr;
    }
    // an element that may be inserted at position i
    bool fits(std::vector<int> const& s, int i, int& e) {
        if (!inf.ord) { e = elem(); return true; }
        int n = (int)s.size();
        int lo = i > 0 ? key(s[(size_t)i - 1]) : inf.kdir == 1 ? -1 : inf.maxk + 1;
        int hi = i < n ? key(s[(size_t)i]) : inf.kdir == 1 ? inf.maxk + 1 : -1;
        int a = std::min(lo, hi) + 1, b = std::max(lo, hi) - 1;
        if (a > b) return false;
        int w = b - a + 1;
        e = elem_with_key(w < 4 ? a + w / 2 : a + w / 3 + rng(w / 3 + 1));
        return true;
    }
    // an iterator at position i; slot 7 is kept for this
    bool at(int h, int i) {
        Step a; a.op = "mk"; a.it = 7; a.h = h; a.v = rng(4); a.i = i;
        int n = (int)x.shadow(h).size();
        if (i >= n) a.how = "end"; else if (inf.idx && rng.chance(50)) a.how = "index"; else a.how = "step";
        return x.step(a) && x.it_live(7);
    }
    // the operation of a transition on tree h, the result going to g if h is immutable
    // i: an insertion that goes in front of what is at i now, j: one that goes behind what is before it (by position; they
    // differ between two leaves, `edge')
    bool take(char op, int i, int h, int g, bool edge) {
        auto const& s = x.shadow(h); int n = (int)s.size();
        for (int tries = 0; tries < 12; ++tries) {
            Step a; a.h = h; a.g = g; a.v = spell();
            int m = rng(6);
            if (op == 'j') {
                if (!fits(s, i, a.e)) return false;
                a.op = "ins_at"; a.i = i;
            } else if (op == 'i') {
                if (!fits(s, i, a.e)) return false;
                if (edge && inf.idx && !(inf.ord && m < 3)) m = 5;
                if (m == 0 && i == n) { a.op = "push_back"; a.v = rng(12); }
                else if (m == 0 && i == 0) { a.op = "push_front"; a.v = rng(12); }
                else if (m < 3 && inf.ord) a.op = m == 1 ? "insv" : "ioa";
                else if (m < 5) { a.op = "ins_at"; a.i = i; }
                else { if (!at(h, i)) continue; int p = x.it_p(7), rev = x.it_rev(7); if ((rev ? std::min(p + 1, n) : p) != i || p < 0) continue; a.op = "it_ins"; a.it = 7; a.keep = rng.chance(70); }
            } else if (op == 'e') {
                if (m == 0 && i == n - 1) a.op = "pop_back";
                else if (m == 0 && i == 0) a.op = "pop_front";
                else if (m < 3 && inf.ord) { a.op = "erk"; a.k = key(s[(size_t)i]); }
                else if (m < 5) { a.op = "era_at"; a.i = i; }
                else { if (!at(h, i) || x.it_p(7) != i) continue; a.op = "it_era"; a.it = 7; a.keep = rng.chance(70); }
            } else {
                int old = s[(size_t)i];
                a.e = inf.ord ? instead(s, i) : elem();
                a.d = inf.km > 1 ? delta(old) : (inf.ord ? instead(s, i) : elem()) - old;
                a.i = i;
                if (is("proxy") && inf.arith && g < 0 && m < 4) {
                    a.op = "px"; a.v = rng(4); a.n = rng(15);
                    if (!operand(inf.km == 1 ? old : old - key(old) * inf.km, a.n, a.d)) continue;
                    if (x.step(a)) return true;
                    continue;
                }
                if (m == 0) a.op = "set_at"; else if (m == 1) a.op = "upd_at";
                else if (m == 2 && inf.ord) { a.op = "asv"; a.e = elem_with_key(key(old)); } else if (m == 3 && inf.ord) { a.op = "upk"; a.k = key(old); if (inf.km == 1) a.d = 0; }
                else { if (!at(h, i) || x.it_p(7) != i) continue; a.it = 7; a.op = m == 4 ? "it_set" : "it_upd"; a.keep = 1; }
            }
            if (x.step(a) && (g < 0 || x.live(g))) return true;
        }
        return false;
    }
    void walk_look(int h, bool changed) {
        auto pc = [&](int p) { return rng.chance(changed ? p : p / 4); };
        if (is("key") && pc(60)) q_key(h); else if (is("idx") && pc(60)) q_idx(h); else if (is("sum") && pc(60)) q_sum(h);
        else if (is("mm") && pc(60)) q_mm(h); else if (is("iter") && pc(40)) q_jump(h); else if (is("cmp") && pc(40)) q_cmp(h);
        else if (is("depth")) { if (pc(50)) x.obs_lim(h); if (pc(20)) seq(h); }
        else if (is("cost")) { if (pc(15)) seq(h); }
        else if (is("stab")) { if (pc(70)) all_iters(); if (pc(25)) seq(h); }
        else if (is("all")) { if (pc(30)) queries(h); if (pc(50)) seq(h); }
        else if (pc(85)) seq(h);
    }
    void run_walk() {
        nT = 2; nP = 3;
        bool im = immutable();
        int h = new_tree(im ? "P" : "T"), s = 0;
        if (im) for (auto& e : graph[0]) if (e.op == 's') { s = e.to; break; }
        std::vector<int> sharers;
        for (int j = 0; j < 400 && !done(); ++j) {
            Edge* e = nullptr;
            for (auto& f : graph[(size_t)s]) if (open(s, f)) { e = &f; break; }
            if (!e) e = towards(s);
            if (!e) { if (s == 0 || j == 0) left = 0; break; }
            if (is("stab")) while (rng.chance(60)) mk(rng(7), rng.chance(70) || sharers.empty() ? h : sharers[(size_t)rng((int)sharers.size())]);
            bool ok = true, edge = false;
            for (auto& f : graph[(size_t)s]) if (f.op == 'j' && f.pos == e->pos) edge = true;
            if (e->op == 's') {
                if (!im) {
                    if (sharers.size() >= 2) { size_t k = (size_t)rng(2); del(sharers[k]); sharers.erase(sharers.begin() + (long)k); }
                    int g = free_h();
                    Step a; a.op = "drv"; a.h = h; a.g = g; a.how = rng.chance(is("conv") ? 35 : 75) ? "P" : "T"; a.v = rng(6);
                    ok = x.step(a);
                    if (ok) sharers.push_back(g);
                }
            } else if (im) {
                int g = free_h();
                ok = take(e->op, e->pos, h, g, edge);
                if (ok) { walk_look(g, true); if (rng.chance(30)) seq(h); if (rng.chance(20)) queries(g); del(h); h = g; }
            } else {
                if (is("fail") && rng.chance(60) && fail_once(h, rng.chance(50))) { seq(h); if (!sharers.empty()) seq(sharers[0]); }
                // other mutable trees that share with it
                if (!sharers.empty() && rng.chance(is("conv") ? 40 : 15)) { int q = sharers[(size_t)rng((int)sharers.size())]; target = 4; if (x.is_t(q) && edit(q)) { if (rng.chance(50)) seq(q); if (rng.chance(30)) seq(h); } }
                // the same on the immutable tree that still shares everything
                if (marked[(size_t)s] && !sharers.empty() && !x.is_t(sharers.back()) && x.shadow(sharers.back()) == x.shadow(h) && rng.chance(35)) {
                    int g = free_h();
                    if (take(e->op, e->pos, sharers.back(), g, edge)) { walk_look(g, true); del(g); }
                }
                ok = take(e->op, e->pos, h, -1, edge);
                if (ok) { walk_look(h, true); if (!sharers.empty() && rng.chance(25)) { int q = sharers[(size_t)rng((int)sharers.size())]; if (rng.chance(60)) seq(q); else walk_look(q, true); } }
            }
            if (!ok) { ++e->tries; if (e->tries >= 4 && open(s, *e) != (wanted(s, *e) && !e->done)) --left; break; }
            if (!e->done) { e->done = true; if (wanted(s, *e)) { --left; ++walked; } }
            s = e->to;
            if (im && !marked[(size_t)s]) for (auto& f : graph[(size_t)s]) if (f.op == 's') { s = f.to; break; }
        }
        for (int q = 0; q < ExecI::NH; ++q) if (x.live(q)) { seq(q); walk_look(q, false); }
        if (is("stab")) all_iters();
    }
    void run_all() {        // a bit of everything
        int m = rng(6);
        if (m == 0) run_seq(); else if (m == 1) run_pers(); else if (m == 2) run_conv(); else if (m == 3) run_peq(); else if (m == 4) run_stab(); else run_edits(true, 35, [&](int h) { seq(h); queries(h); });
    }
    void go() {
        while (!done()) {
            begin_run();
            if (!graph.empty()) { if (left <= 0) { x.reset(); break; } run_walk(); }
            else if (is("seq")) run_seq();
            else if (is("keyed")) run_edits(true, 60, [&](int h) { seq(h); });
            else if (is("key")) run_edits(true, 45, [&](int h) { seq(h, 1); q_key(h); });
            else if (is("idx")) run_edits(true, 45, [&](int h) { seq(h, 1); q_idx(h); });
            else if (is("sum")) run_edits(true, 50, [&](int h) { seq(h, 1); q_sum(h); });
            else if (is("mm")) run_edits(true, 50, [&](int h) { seq(h, 1); q_mm(h); });
            else if (is("iter") || is("cmp")) run_iter();
            else if (is("stab")) run_stab();
            else if (is("proxy")) run_proxy();
            else if (is("pers")) run_pers();
            else if (is("conv")) run_conv();
            else if (is("peq")) run_peq();
            else if (is("fail")) run_fail();
            else if (is("cost")) run_cost();
            else if (is("depth")) run_depth();
            else if (prof.rfind("huge_", 0) == 0) run_huge(prof.substr(5));
            else if (is("over")) run_over(true);
            else if (is("overp")) run_over(false);
            else run_all();
            x.reset();
            if (life) Life::end();
        }
    }
};
struct Args { std::string prof = "all", walk, tag = "done"; int part = 0, parts = 1; bool life = false; uint64_t seed = 1; long events = 1000; };
void body(void* p) {
    auto& a = *static_cast<Args*>(p);
    std::unique_ptr<ExecI> x(make_exec());
    Gen g(*x, a.prof, a.seed, a.events);
    g.life = Life::on = a.life;
    g.part = a.part; g.parts = a.parts;
    if (!a.walk.empty()) g.load(a.walk);
    g.go();
    if (!a.walk.empty()) { FILE* f = fopen((a.walk + "." + a.tag).c_str(), "w"); if (f) { fprintf(f, "%ld %ld\n", g.walked, g.left); fclose(f); } }
}
} // namespace
} // namespace vx

#ifndef VX_NO_MAIN
int main(int argc, char** argv) {
    vx::Args a;
    std::string out = "/dev/null";
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--profile") a.prof = v; else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--events") a.events = atol(v.c_str()); else if (k == "--out") out = v; else if (k == "--walk") a.walk = v; else if (k == "--tag") a.tag = v; else if (k == "--part") a.part = atoi(v.c_str()); else if (k == "--parts") a.parts = atoi(v.c_str()); else if (k == "--life") a.life = v == "1";
    }
    return vx::run_logged(out.c_str(), 30, vx::body, &a);
}
#endif
