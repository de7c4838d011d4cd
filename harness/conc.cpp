// Records what several threads do to trees that share structure: calls and results in the vocabulary of spec/Trace.tla,
// memory accesses and synchronisation in that of spec/TraceConc.tla.
#define VX_NO_MAIN
#include "drive.cpp"
#include "conc.hpp"
#include <cstddef>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

extern "C" { extern char __data_start, _end; }

namespace vx {
namespace {
// ---------------------------------------------------------------- blocks
// Never reused within a run.  Block 0 stands for global variables and the mailbox of the harness.
struct Block { char* p; size_t n; bool dead; uint8_t* mark[MAXT]; };
constexpr size_t ARENA = size_t{1} << 30;
char* arena = nullptr;
size_t used = 0;
constexpr int MAXB = 1 << 17;
Block* blocks = nullptr;
int n_blocks = 1;
int32_t* owner_of = nullptr;        // block of every 16 bytes of the arena

bool on = false;                    // recording
int self = 0;                       // thread that runs
int n_threads = 1;
Rng sched{1};
int p_atomic = 0, p_plain = 0, p_op = 0;    // switching, per 10000
bool several = false;

int cell(size_t off) { return off < 32 ? (int)off : (int)(32 + (off - 32) / 4); }

// ---------------------------------------------------------------- pending accesses of each thread
struct Touch { int b; };
struct Pending { int b[4096]; int n = 0; };
Pending pend[MAXT];
char line[1 << 20];

// global variables: one block made of the cells seen so far
struct GlobalCell { size_t a; };
size_t* globals = nullptr; int n_globals = 0;
constexpr int MAXG = 1 << 12;
int global_cell(size_t a) {
    a &= ~size_t{3};
    for (int i = 0; i < n_globals; ++i) if (globals[i] == a) return i + 100;
    if (n_globals == MAXG) broken("too many global variables");
    globals[n_globals++] = a;
    return n_globals - 1 + 100;
}
bool is_global(char const* a) {
    if (a < &__data_start || a >= &_end) return false;
    auto in = [&](void const* p, size_t n) { return a >= (char const*)p && a < (char const*)p + n; };
    return !in(&heap, sizeof heap) && !in(&Life::on, 1) && !in(&Event::buf, sizeof Event::buf) && !in(&arena_take, 8) && !in(&arena_give, 8);
}
void flush(int t) {
    Pending& q = pend[t];
    if (q.n == 0) return;
    char* p = line + sprintf(line, "{\"o\":\"Acc\",\"t\":%d,\"b\":[", t);
    bool first = true;
    for (int i = 0; i < q.n; ++i) {
        Block& b = blocks[q.b[i]];
        size_t m = q.b[i] == 0 ? MAXG + 100 : (size_t)cell(b.n) + 1;
        p += sprintf(p, "%s[[%d],[", first ? "" : ",", q.b[i]);
        first = false;
        for (int k = 1; k <= 2; ++k) {
            bool f = true;
            for (size_t c = 0; c < m; ++c) if (b.mark[t][c] & k) { p += sprintf(p, f ? "%zu" : ",%zu", c); f = false; }
            p += sprintf(p, k == 1 ? "],[" : "]]");
        }
        memset(b.mark[t], 0, m);
        if (p > line + sizeof line - 65536) broken("too many accesses in one segment");
    }
    p += sprintf(p, "]}\n");
    q.n = 0;
    raw_line(line, (size_t)(p - line));
}
void touch_cell(int bi, int c, int k) {
    Block& b = blocks[bi];
    if (!b.mark[self]) b.mark[self] = (uint8_t*)calloc(1, bi == 0 ? MAXG + 100 : (size_t)cell(b.n) + 2);
    Pending& q = pend[self];
    bool there = false;
    for (int i = 0; i < q.n; ++i) if (q.b[i] == bi) { there = true; break; }
    if (!there) { if (q.n == 4096) flush(self); q.b[q.n++] = bi; }
    b.mark[self][c] |= (uint8_t)k;
}
int block_of(void const* a) {
    size_t off = (size_t)((char const*)a - arena);
    return off < used ? owner_of[off / 16] : -1;
}
void maybe_switch(int p);
void touch(void const* a, size_t n, int k) {
    if (!on || n == 0) return;
    int bi = block_of(a);
    if (bi < 0) {
        if (is_global((char const*)a)) {
            for (size_t x = (size_t)a; x < (size_t)a + n; x = (x & ~size_t{3}) + 4) touch_cell(0, global_cell(x), k);
            if (several) maybe_switch(p_atomic);
        }
        return;
    }
    if (several && p_plain) maybe_switch(p_plain);
    Block& b = blocks[bi];
    size_t off = (size_t)((char*)a - b.p);
    if (off + n > b.n) broken("access past the end of a block");
    for (int c = cell(off), e = cell(off + n - 1); c <= e; ++c) touch_cell(bi, c, k);
}
void atomic_cell(void const* a, int& b, int& c) {
    b = block_of(a);
    if (b >= 0) { c = cell((size_t)((char*)a - blocks[b].p)); return; }
    if (is_global((char const*)a)) { b = 0; c = global_cell((size_t)a); }
}
// k: 0 load, 1 store, 2 read-modify-write, 3 fence
void sync_event(int k, int mo, int b, int c) {
    flush(self);
    int n = sprintf(line, "{\"o\":\"At\",\"t\":%d,\"k\":%d,\"b\":%d,\"c\":%d,\"acq\":%d,\"rel\":%d}\n", self, k, b, c,
                    k != 1 && (mo == 1 || mo == 2 || mo == 4 || mo == 5), k != 0 && (mo == 3 || mo == 4 || mo == 5));
    raw_line(line, (size_t)n);
}

void* take_block(size_t n) {
    if (!heap.timed && !heap.box) return nullptr;
    size_t at = (used + 15) / 16 * 16;
    if (at + n + 16 > ARENA || n_blocks == MAXB) broken("arena is full");
    int bi = n_blocks++;
    blocks[bi] = Block{arena + at, n, false, {}};
    used = at + n;
    for (size_t i = at / 16; i * 16 < used; ++i) owner_of[i] = bi;
    memset(arena + at, 0xA5, n);
    if (on) { int m = sprintf(line, "{\"o\":\"Al\",\"t\":%d,\"b\":%d}\n", self, bi); raw_line(line, (size_t)m); }
    return arena + at;
}
bool give_block(void* p) {
    if ((char*)p < arena || (char*)p >= arena + ARENA) return false;
    int bi = block_of(p);
    if (bi < 0 || blocks[bi].p != p) broken("free of a wild pointer");
    if (on) {
        if (several) maybe_switch(p_atomic);
        flush(self);
        int m = sprintf(line, "{\"o\":\"Fr\",\"t\":%d,\"b\":%d}\n", self, bi); raw_line(line, (size_t)m);
    } else if (blocks[bi].dead) broken("double free");
    blocks[bi].dead = true;
    memset(p, 0xDD, blocks[bi].n);
    for (auto& m : blocks[bi].mark) { free(m); m = nullptr; }
    return true;
}

// ---------------------------------------------------------------- threads
struct Thread { pthread_t id; sem_t go; bool finished = true; char* buf = nullptr; bool timed = false; };
Thread threads[MAXT];
int quiet = 0;          // atomic operations since the last switch
void switch_to(int t) {
    if (t == self) return;
    Thread& me = threads[self];
    me.buf = Event::buf; me.timed = heap.timed;
    int from = self;
    self = t; quiet = 0;
    Event::buf = threads[t].buf; heap.timed = threads[t].timed;
    sem_post(&threads[t].go);
    if (!me.finished) while (sem_wait(&threads[from].go) != 0) {}
}
int other() {
    int c[MAXT], n = 0;
    for (int t = 1; t < n_threads; ++t) if (t != self && !threads[t].finished) c[n++] = t;
    return n ? c[sched(n)] : -1;
}
void maybe_switch(int p) {
    if (sched(10000) >= p && ++quiet < 2000) return;
    int t = other();
    if (t >= 0) switch_to(t);
}

// ---------------------------------------------------------------- what the threads do
enum { FREE_FOR_ALL = 100 };
struct Conc : Gen {
    int owner[ExecI::NH];
    std::unique_ptr<Gen> gens[MAXT];
    int mail = -1;          // a handle on its way from one thread to another
    int todo = 0;
    using Gen::Gen;

    int any_tree(Gen& g, bool& shared) {
        int c[ExecI::NH], n = 0;
        for (int h = 0; h < ExecI::NH; ++h) if (x.live(h) && (owner[h] == self || owner[h] == FREE_FOR_ALL)) c[n++] = h;
        int h = n ? c[g.rng(n)] : -1;
        shared = h >= 0 && owner[h] == FREE_FOR_ALL;
        return h;
    }
    void pass_on(Gen& g) {      // hand a tree over, or take one
        if (mail >= 0) { if (mail_from == self) return; sync_event(0, 2, 0, 1); owner[mail] = self; mail = -1; return; }
        int n = 0, h = g.pick_h(true, true);
        for (int o : owner) n += o == self;
        if (h < 0 || n < 4) return;
        for (int i = 0; i < ExecI::NI; ++i) if (x.it_live(i) && x.it_h(i) == h) { Step a; a.op = "drit"; a.it = i; x.step(a); if (x.it_live(i)) return; }
        owner[h] = -1; mail = h; mail_from = self;
        sync_event(1, 3, 0, 1);
    }
    int mail_from = -1;
    void act(Gen& g) {
        bool shared;
        int m = g.rng(100);
        int h = any_tree(g, shared);
        if (h < 0) { g.new_tree("T"); return; }
        int it = 2 * (self - 1) + g.rng(2);
        if (m < 18) {       // an edit of one's own mutable tree
            int t = g.pick_h(true, false);
            if (t >= 0) { g.edit(t); return; }
            m = 50;
        }
        if (m < 36) {       // a new version of an immutable tree
            if (x.is_t(h)) { g.derive(h, "P", false); return; }
            int q = g.room_p(h);
            if (q < 0) return;
            if (g.rng.chance(75)) g.edit(h, q); else if (g.mk(it, h)) g.it_edit(it, q);
        } else if (m < 58) g.derive(h, g.rng.chance(50) ? "T" : "P", !shared && g.rng.chance(30));
        else if (m < 68) { int d = g.pick_h(true, true); if (d >= 0) g.del(d); }
        else if (m < 73) g.seq(h);
        else if (m < 78) g.some_query(h);
        else if (m < 79) g.q_jump(h);
        else if (m < 80) g.q_cmp(h);
        else if (m < 86) { int t = g.pick_h(true, false); if (t >= 0) { if (!x.it_live(it) || x.it_h(it) != t) g.mk(it, t); if (x.it_live(it) && x.it_h(it) == t) g.it_edit(it, -1); } }
        else if (m < 90) g.mk(it, h);
        else if (m < 94) { int a = g.pick_h(true, true), b = g.pick_h(true, true); if (a >= 0 && b >= 0 && a != b && x.is_t(a) == x.is_t(b)) { Step s; s.op = g.rng(3) == 0 ? "swp" : g.rng(2) ? "asg" : "asgm"; s.h = a; s.g = b; x.step(s); } }
        else pass_on(g);
    }
    static void* body(void* p) {
        auto& c = *static_cast<Conc*>(static_cast<std::pair<Conc*, int>*>(p)->first);
        int me = static_cast<std::pair<Conc*, int>*>(p)->second;
        while (sem_wait(&threads[me].go) != 0) {}
        Gen& g = *c.gens[me];
        for (int j = 0; j < c.todo; ++j) { c.act(g); flush(me); maybe_switch(p_op); }
        // some threads drop everything they have before they end
        if (g.rng.chance(60)) for (int h = 0; h < ExecI::NH; ++h) if (c.x.live(h) && c.owner[h] == me) { g.del(h); flush(me); }
        threads[me].finished = true;
        int t = other();
        switch_to(t >= 0 ? t : 0);
        return nullptr;
    }
    void run() {
        for (int& o : owner) o = 0;
        hold = nullptr;
        nT = 2; nP = 3;
        begin_run();
        small = std::min(small, 30); target = small;
        int t0 = new_tree("T");
        for (int j = rng(2 * small + 2); j > 0; --j) edit(t0);
        int nthreads = 2 + rng.chance(35);
        // what everybody may look at and convert
        int nshared = rng(3);
        for (int j = 0; j < nshared; ++j) { nP = ExecI::NH; int g = free_h(); if (derive(t0, "P", false)) owner[g] = FREE_FOR_ALL; for (int k = rng(4); k > 0; --k) edit(t0); }
        // what each starts with: copies of the same trees
        for (int t = 1; t <= nthreads; ++t) {
            nT = nP = ExecI::NH;
            for (int j = 1 + rng(2); j > 0; --j) {
                int from = pick_h(true, true); int g = free_h();
                if (from < 0) from = t0;
                if (g >= 0 && derive(from, rng.chance(50) ? "P" : "T", false)) owner[g] = t;
            }
        }
        for (int h = 0, t = 0; h < ExecI::NH; ++h) if (owner[h] == 0) owner[h] = x.live(h) ? 1 + rng(nthreads) : 1 + t++ % nthreads;
        for (int i = 0; i < ExecI::NI; ++i) if (x.it_live(i)) { Step a; a.op = "drit"; a.it = i; x.step(a); }
        todo = 6 + rng(25);
        static int const pa[] = {500, 3000, 7000, 9500}, pp[] = {0, 0, 20, 300}, po[] = {500, 3000, 9000};
        p_atomic = pa[sched(4)]; p_plain = pp[sched(4)]; p_op = po[sched(3)];
        std::pair<Conc*, int> args[MAXT];
        n_threads = nthreads + 1;
        {
            char* p = line + sprintf(line, "{\"o\":\"Fork\",\"n\":%d,\"b\":[0", n_threads);
            for (int b = 1; b < n_blocks; ++b) if (!blocks[b].dead) p += sprintf(p, ",%d", b);
            p += sprintf(p, "]}\n");
            raw_line(line, (size_t)(p - line));
        }
        mail = -1;
        for (int t = 1; t < n_threads; ++t) {
            gens[t] = std::make_unique<Gen>(*this);
            gens[t]->rng.s = rng.next() | 1; gens[t]->hold = owner; gens[t]->who = t; gens[t]->nT = 2; gens[t]->nP = 3;
            sem_init(&threads[t].go, 0, 0);
            threads[t].finished = false; threads[t].timed = false;
            threads[t].buf = bufs[t];
            args[t] = {this, t};
            pthread_create(&threads[t].id, nullptr, body, &args[t]);
        }
        threads[0].finished = false;
        sem_init(&threads[0].go, 0, 0);
        on = several = true;
        switch_to(1 + sched(n_threads - 1));
        several = false;
        for (int t = 1; t < n_threads; ++t) pthread_join(threads[t].id, nullptr);
        { int n = sprintf(line, "{\"o\":\"Join\"}\n"); raw_line(line, (size_t)n); }
        // alone again
        for (int h = 0; h < ExecI::NH; ++h) { seq(h); flush(0); }
        for (int i = 0; i < ExecI::NI; ++i) if (x.it_live(i)) { Step a; a.op = "drit"; a.it = i; x.step(a); }
        for (int h = 0; h < ExecI::NH; ++h) if (x.live(h)) { del(h); flush(0); }
        x.reset();
        flush(0);
        on = false;
        { int n = sprintf(line, "{\"o\":\"Done\"}\n"); raw_line(line, (size_t)n); }
        if (used > ARENA / 2) broken("arena is full");
        // forget
        for (int b = 1; b < n_blocks; ++b) for (auto& m : blocks[b].mark) { free(m); m = nullptr; }
        n_blocks = 1; used = 0;
    }
    static char bufs[MAXT][Event::ROOM];
};
char Conc::bufs[MAXT][Event::ROOM];

struct CArgs { uint64_t seed = 1; long events = 1000; };
void conc_body(void* p) {
    auto& a = *static_cast<CArgs*>(p);
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    owner_of = (int32_t*)mmap(nullptr, ARENA / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = (Block*)calloc(MAXB, sizeof(Block));
    globals = (size_t*)calloc(MAXG, sizeof(size_t));
    sched.s = a.seed * 0x2545F4914F6CDD1DULL + 0x7654321;
    for (int i = 0; i < 9; ++i) sched.next();
    std::unique_ptr<ExecI> x(make_exec());
    Conc c(*x, "conc", a.seed, a.events);
    arena_take = take_block; arena_give = give_block;
    while (!c.done()) c.run();
}
} // namespace
} // namespace vx

// ---------------------------------------------------------------- what -fsanitize=thread calls
using namespace vx;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** a, void*) { touch(a, 8, 2); }
void __tsan_vptr_read(void** a) { touch(a, 8, 1); }
#define RW(n) \
    void __tsan_read##n(void* a) { touch(a, n, 1); } void __tsan_write##n(void* a) { touch(a, n, 2); } \
    void __tsan_read_write##n(void* a) { touch(a, n, 3); } \
    void __tsan_unaligned_read##n(void* a) { touch(a, n, 1); } void __tsan_unaligned_write##n(void* a) { touch(a, n, 2); } \
    void __tsan_unaligned_read_write##n(void* a) { touch(a, n, 3); } \
    void __tsan_volatile_read##n(void* a) { touch(a, n, 1); } void __tsan_volatile_write##n(void* a) { touch(a, n, 2); } \
    void __tsan_unaligned_volatile_read##n(void* a) { touch(a, n, 1); } void __tsan_unaligned_volatile_write##n(void* a) { touch(a, n, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { touch(a, n, 1); }
void __tsan_write_range(void* a, size_t n) { touch(a, n, 2); }
void* __tsan_memcpy(void* d, void const* s, size_t n) { touch(s, n, 1); touch(d, n, 2); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, size_t n) { touch(s, n, 1); touch(d, n, 2); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { touch(d, n, 2); return memset(d, v, n); }
void __tsan_atomic_thread_fence(int mo) { if (on) sync_event(3, mo, 0, 0); }
void __tsan_atomic_signal_fence(int) {}
}
namespace {
// the operation itself is done by one thread at a time
template <typename T> void before(T const volatile* a, int k, int mo) {
    if (!on) return;
    if (several) maybe_switch(p_atomic);
    int b = -1, c = 0;
    atomic_cell((void const*)a, b, c);
    if (b >= 0) sync_event(k, mo, b, c);
}
template <typename T> int cas(T volatile* a, T* e, T v, int mo, int fmo) {
    if (on && several) maybe_switch(p_atomic);
    bool ok = *a == *e;
    int b = -1, c = 0;
    if (on) atomic_cell((void const*)a, b, c);
    if (b >= 0) sync_event(ok ? 2 : 0, ok ? mo : fmo, b, c);
    if (ok) *a = v; else *e = *a;
    return ok;
}
}
extern "C" {
#define AT(n, T) \
    T __tsan_atomic##n##_load(T const volatile* a, int mo) { before(a, 0, mo); return *a; } \
    void __tsan_atomic##n##_store(T volatile* a, T v, int mo) { before(a, 1, mo); *a = v; } \
    T __tsan_atomic##n##_exchange(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##n##_fetch_sub(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##n##_fetch_and(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##n##_fetch_or(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##n##_fetch_xor(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##n##_fetch_nand(T volatile* a, T v, int mo) { before(a, 2, mo); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(T volatile* a, T* e, T v, int mo, int f) { return cas(a, e, v, mo, f); } \
    int __tsan_atomic##n##_compare_exchange_weak(T volatile* a, T* e, T v, int mo, int f) { return cas(a, e, v, mo, f); } \
    T __tsan_atomic##n##_compare_exchange_val(T volatile* a, T e, T v, int mo, int f) { cas(a, &e, v, mo, f); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
// locks and initialisation of local statics synchronise as well
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on) return __real_pthread_mutex_lock(m);
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) { sync_event(0, 2, 0, global_cell((size_t)m)); return r; }
        int t = other();
        if (t < 0) broken("deadlock");
        switch_to(t);
    }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (on) sync_event(2, 3, 0, global_cell((size_t)m));
    return __real_pthread_mutex_unlock(m);
}
void __real___cxa_guard_release(long*);
void __wrap___cxa_guard_release(long* g) {
    if (on) sync_event(1, 3, 0, global_cell((size_t)g));
    __real___cxa_guard_release(g);
}
}

int main(int argc, char** argv) {
    CArgs a;
    std::string out = "/dev/null";
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--events") a.events = atol(v.c_str()); else if (k == "--out") out = v;
    }
    return run_logged(out.c_str(), 30, conc_body, &a);
}
