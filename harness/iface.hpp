// What the generator knows about an executor: which features the configuration has, the shadow state that tells which
// arguments satisfy the preconditions, and the calls it can request.
#pragma once
#include <array>
#include <functional>
#include <string>
#include <vector>
#include "rt.hpp"

namespace vx {
// one step requested by the generator or by a replayed walk
struct Step {
    std::string op;             // name in the specification's vocabulary
    int h = 0, g = 0;           // handles
    int it = 0, jt = 0;         // iterators
    int i = 0, j = 0, e = 0, k = 0, d = 0, n = 0;
    int v = 0;                  // which of several equivalent spellings of the call
    int keep = 1;
    int force = 0;              // insert although the tree already has its greatest depth (the caller knows it fits)
    std::string how;
};
struct Info {
    char const* name;
    bool ord, idx, sum, min, max, mapped, arith, hasproxy, safe, algo, neg;
    int km, kdir, maxk, maxv;   // keys are 0..maxk; mapped values 0..maxv (plain values are keys)
    char const *sumf, *minf, *maxf;
    int mindir, maxdir;
    int leafcap, intcap, maxdepth;
    int alc;                    // allocations of the library can be attributed to nodes (elements allocate nothing)
    int big;                    // number of elements to aim at
    int lb, ib, lim;            // bytes per leaf and inner node and depth that were asked for
    int leafbytes, nodebytes;   // largest leaf and largest node seen
};
struct ExecI {
    static constexpr int NH = 14, NI = 8;
    std::function<int()> rng;
    virtual ~ExecI() = default;
    virtual Info info() const = 0;
    virtual bool live(int h) const = 0;
    virtual bool is_t(int h) const = 0;
    virtual std::vector<int> const& shadow(int h) const = 0;
    virtual bool it_live(int it) const = 0;
    virtual int it_h(int it) const = 0;
    virtual int it_p(int it) const = 0;
    virtual int it_rev(int it) = 0;
    virtual bool step(Step const&) = 0;
    virtual void obs_seq(int h, int way) = 0;
    virtual void obs_idx(int h, int maxn) = 0;
    virtual void obs_key(int h, std::vector<int> const& probes) = 0;
    virtual void obs_sum(int h, int maxn, std::vector<int> const& targets) = 0;
    virtual void obs_mm(int h, std::vector<std::array<int, 3>> const& ranges) = 0;
    virtual void obs_jump(int h, std::vector<std::array<int, 4>> const& js) = 0;
    virtual void obs_cmp(int h, std::vector<std::array<int, 3>> const& cs) = 0;
    virtual void obs_alien(int h, int g) = 0;
    virtual void obs_emptymm(int h) = 0;
    virtual void obs_lim(int h) = 0;
    virtual void obs_it(int it) = 0;
    virtual void reset() = 0;
    virtual void measure(int& leafcap, int& intcap, int& leafbytes, int& nodebytes) = 0;    // by appending to a scratch tree
};
ExecI* make_exec();             // defined once per configuration
} // namespace vx
