#include "rt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vx {
Heap heap;
static char main_buf[Event::ROOM];
char* Event::buf = main_buf;
void* (*arena_take)(size_t) = nullptr;
bool (*arena_give)(void*) = nullptr;

bool Life::on = false;
namespace {
// addresses to small numbers, and the block an address lies in; none of this uses operator new
struct Slot { void const* a; int id; };
constexpr size_t LN = size_t{1} << 22;
Slot* slots = nullptr;
int n_ids = 0;
int id_of(void const* a) {
    if (!slots) slots = static_cast<Slot*>(calloc(LN, sizeof(Slot)));
    size_t h = (reinterpret_cast<size_t>(a) >> 2) * 0x9E3779B97F4A7C15ULL >> 42;
    while (slots[h & (LN - 1)].a && slots[h & (LN - 1)].a != a) ++h;
    Slot& s = slots[h & (LN - 1)];
    if (!s.a) { s.a = a; s.id = ++n_ids; }
    return s.id;
}
struct Blk { char const* p; size_t n; int id; };
constexpr int BN = 1 << 16;
Blk* blks = nullptr;
int n_blks = 0, blk_seq = 0;
int blk_of(void const* a) {
    for (int i = n_blks; i-- > 0;) if (static_cast<char const*>(a) >= blks[i].p && static_cast<char const*>(a) < blks[i].p + blks[i].n) return blks[i].id;
    return 0;
}
struct Rec { int k, a, b, blk; };
constexpr int RN = 1 << 16;
Rec* recs = nullptr;
int n_recs = 0;
struct Shared {
    volatile long len;
    volatile long events;
    char current[64];
    char why[128];
};
constexpr size_t LOG_SIZE = size_t{1} << 28;
Shared* sh = nullptr;
char* log_mem = nullptr;

void init() {
    if (sh) return;
    void* m = mmap(nullptr, LOG_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    sh = static_cast<Shared*>(m);
    log_mem = static_cast<char*>(m) + 4096;
}

// every block carries a header; freed blocks are poisoned and kept for a while so that a use after free is visible
struct Header { size_t size; uint32_t magic; uint32_t lib; };
constexpr uint32_t LIVE = 0xB10CB10C, DEAD = 0xDEADB10C;
constexpr size_t QN = 4096;
Header* quarantine[QN];
size_t q_at = 0, q_bytes = 0;

void* take(size_t n);
void give(void*);
} // namespace
[[noreturn]] void broken(char const* why) { if (sh) { strncpy(sh->why, why, sizeof sh->why - 1); } abort(); }
void raw_line(char const* s, size_t n) {
    init();
    if (sh->len + static_cast<long>(n) > static_cast<long>(LOG_SIZE)) return;
    memcpy(log_mem + sh->len, s, n);
    sh->len = sh->len + static_cast<long>(n);
    sh->events = sh->events + 1;
}
namespace {
void* take(size_t n) {
    bool lib = heap.timed;
    if (lib) {
        if (heap.fail_in >= 0) { if (heap.fail_in == 0) { heap.fail_in = -1; heap.timed = false; throw std::bad_alloc(); } --heap.fail_in; }
        ++heap.allocs;
        if (static_cast<long>(n) > heap.biggest) heap.biggest = static_cast<long>(n);
    }
    if (arena_take) if (void* q = arena_take(n)) return q;
    auto* h = static_cast<Header*>(malloc(sizeof(Header) + n + 16));
    if (!h) throw std::bad_alloc();
    *h = Header{n, LIVE, lib ? 1u : 0u};
    char* p = reinterpret_cast<char*>(h + 1);
    memset(p, 0xA5, n);
    memset(p + n, 0x5C, 16);    // guard
    if (Life::on && lib) {
        if (!blks) blks = static_cast<Blk*>(malloc(BN * sizeof(Blk)));
        if (n_blks < BN) { blks[n_blks++] = Blk{p, n, ++blk_seq}; Life::op(ALLOC, nullptr, p); }
    }
    return p;
}
void give(void* q) {
    if (!q) return;
    if (arena_give && arena_give(q)) { ++heap.frees; return; }
    Header* h = static_cast<Header*>(q) - 1;
    if (h->magic == DEAD) broken("double free");
    if (h->magic != LIVE) broken("free of a wild pointer");
    char* p = static_cast<char*>(q);
    for (int i = 0; i < 16; ++i) if (p[h->size + i] != 0x5C) broken("write past the end of a block");
    if (h->lib) ++heap.frees;
    if (Life::on && h->lib) {
        Life::op(FREE, nullptr, p);
        for (int i = 0; i < n_blks; ++i) if (blks[i].p == p) { blks[i] = blks[--n_blks]; break; }
    }
    h->magic = DEAD;
    memset(p, 0xDD, h->size);
    Header* old = quarantine[q_at];
    quarantine[q_at] = h;
    q_at = (q_at + 1) % QN;
    if (old) {
        char* o = reinterpret_cast<char*>(old + 1);
        for (size_t i = 0; i < old->size; ++i) if (o[i] != static_cast<char>(0xDD)) broken("write to a freed block");
        free(old);
    }
}
} // namespace
void* rt_take(size_t n) { return take(n); }
void rt_give(void* p) { give(p); }

void set_current(char const* op) { init(); strncpy(sh->current, op, sizeof sh->current - 1); }
long events() { init(); return sh->events; }
bool full() { init(); return sh->len > static_cast<long>(LOG_SIZE) - (4 << 20); }

void Life::op(int what, void const* a, void const* b) {
    if (!on) return;
    if (!recs) recs = static_cast<Rec*>(malloc(RN * sizeof(Rec)));
    if (n_recs == RN) broken("too many object operations in one step");
    Rec& r = recs[n_recs++];
    if (what >= ALLOC) r = Rec{what, blk_of(b), 0, 0};
    else r = Rec{what, id_of(a), b ? id_of(b) : 0, blk_of(a)};
}
void Life::flush(char const* op) {
    if (!on || n_recs == 0) return;
    init();
    char* w = log_mem + sh->len;
    if (sh->len + n_recs * 48L + 200 > static_cast<long>(LOG_SIZE)) { n_recs = 0; return; }
    char* p = w + sprintf(w, "{\"o\":\"Life\",\"op\":\"%s\",\"l\":[", op);
    for (int i = 0; i < n_recs; ++i) p += sprintf(p, "%s[%d,%d,%d,%d]", i ? "," : "", recs[i].k, recs[i].a, recs[i].b, recs[i].blk);
    p += sprintf(p, "]}\n");
    n_recs = 0;
    sh->len = sh->len + (p - w);
    sh->events = sh->events + 1;
}
void Life::end() {
    if (!on) return;
    flush("reset");
    init();
    char* w = log_mem + sh->len;
    sh->len = sh->len + sprintf(w, "{\"o\":\"End\",\"lb\":%ld}\n", live_blocks());
    sh->events = sh->events + 1;
}

Event::Event(char const* o) {
    bool t = heap.timed; heap.timed = false;
    p = buf + sprintf(buf, "{\"o\":\"%s\"", o);
    heap.timed = t;
}
void Event::key(char const* k) { p += sprintf(p, ",\"%s\":", k); }
static void room(char* p) { if (p > Event::buf + Event::ROOM - 4096) { broken("event too long"); } }
static char* put_num(char* p, long v) {
    char t[24]; int n = 0;
    unsigned long u = v < 0 ? -static_cast<unsigned long>(v) : static_cast<unsigned long>(v);
    do { t[n++] = static_cast<char>('0' + u % 10); u /= 10; } while (u);
    if (v < 0) *p++ = '-';
    while (n) *p++ = t[--n];
    return p;
}
void Event::num(char const* k, long v) { room(p); key(k); p = put_num(p, v); }
void Event::str(char const* k, std::string const& v) { room(p); key(k); p += sprintf(p, "\"%s\"", v.c_str()); }
void Event::arr(char const* k, std::vector<int> const& v) {
    key(k); *p++ = '[';
    bool f = true;
    for (int x : v) { room(p); if (!f) *p++ = ','; f = false; p = put_num(p, x); }
    *p++ = ']';
}
void Event::arr2(char const* k, std::vector<std::vector<int>> const& v) {
    key(k); *p++ = '[';
    bool f = true;
    for (auto const& r : v) {
        if (!f) *p++ = ',';
        f = false; *p++ = '[';
        bool g = true;
        for (int x : r) { room(p); if (!g) *p++ = ','; g = false; p = put_num(p, x); }
        *p++ = ']';
    }
    *p++ = ']';
}
void Event::done() {
    if (!open) return;
    open = false;
    init();
    if (Life::on) { bool t = heap.timed; heap.timed = false; Life::flush(sh->current); heap.timed = t; }
    *p++ = '}'; *p++ = '\n';
    long n = p - buf;
    if (sh->len + n > static_cast<long>(LOG_SIZE)) return;
    memcpy(log_mem + sh->len, buf, static_cast<size_t>(n));
    sh->len = sh->len + n;
    sh->events = sh->events + 1;
}

int run_logged(char const* path, int hang_seconds, void (*body)(void*), void* arg) {
    init();
    sh->len = 0; sh->events = 0; sh->current[0] = 0; sh->why[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int devnull = open("/dev/null", O_WRONLY);
        if (devnull >= 0) dup2(devnull, 2);
        body(arg);
        Life::end();
        _exit(0);
    }
    int status = 0;
    long last = -1, still = 0;
    bool hang = false;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (r < 0) break;
        if (sh->events != last) { last = sh->events; still = 0; }
        else if (++still > hang_seconds * 200L) { hang = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
        timespec ts{0, 5000000}; nanosleep(&ts, nullptr);
    }
    char tail[512] = "";
    if (hang) snprintf(tail, sizeof tail, "{\"o\":\"Hang\",\"op\":\"%s\"}\n", sh->current);
    else if (WIFSIGNALED(status)) snprintf(tail, sizeof tail, "{\"o\":\"Crash\",\"op\":\"%s\",\"sig\":%d,\"why\":\"%s\"}\n", sh->current, WTERMSIG(status), sh->why);
    else if (WEXITSTATUS(status) != 0) snprintf(tail, sizeof tail, "{\"o\":\"Crash\",\"op\":\"%s\",\"sig\":0,\"exit\":%d,\"why\":\"%s\"}\n", sh->current, WEXITSTATUS(status), sh->why);
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); return 3; }
    size_t n = static_cast<size_t>(sh->len);
    bool ok = fwrite(log_mem, 1, n, f) == n && fputs(tail, f) >= 0;
    if (fclose(f) != 0 || !ok) { perror(path); return 3; }
    return 0;
}
} // namespace vx

void* operator new(size_t n) { return vx::rt_take(n); }
void* operator new[](size_t n) { return vx::rt_take(n); }
void operator delete(void* p) noexcept { vx::rt_give(p); }
void operator delete[](void* p) noexcept { vx::rt_give(p); }
void operator delete(void* p, size_t) noexcept { vx::rt_give(p); }
void operator delete[](void* p, size_t) noexcept { vx::rt_give(p); }
