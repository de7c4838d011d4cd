// Runtime of the harness: event log, allocation bookkeeping, crash and hang reporting.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace vx {

// ---------------------------------------------------------------- allocation bookkeeping
struct Heap {
    bool timed = false;         // inside a call of the library
    bool box = false;           // allocating a tree object
    long allocs = 0;            // allocations made inside library calls, ever
    long frees = 0;             // blocks of those that were released
    long biggest = 0;           // largest of them, in bytes
    long fail_in = -1;          // fail the n-th allocation inside a library call from now on
};
extern Heap heap;
inline long live_blocks() { return heap.allocs - heap.frees; }
inline void fail_after(long n) { heap.fail_in = n; }

// ---------------------------------------------------------------- lifetimes
// What happens to tracked objects and to the library's blocks, in order, since the last event.
enum LifeOp { MAKE = 0, COPY = 1, MOVE = 2, SET = 3, SETMOVE = 4, READ = 5, KILL = 6, ALLOC = 7, FREE = 8 };
struct Life {
    static bool on;
    static void op(int what, void const* a, void const* b = nullptr);
    static void flush(char const* op);      // writes what was collected as one event
    static void end();                      // nothing may be left
};

// marks the part of the caller's code that is the library call
struct Timed {
    long base = heap.allocs;
    void start() { heap.timed = true; }
    void stop() { heap.timed = false; }
    static void off() { heap.timed = false; }
    long count() const { return heap.allocs - base; }
    ~Timed() { heap.timed = false; }
};
struct AllocCount {
    long base = heap.allocs;
    int get() const { return static_cast<int>(heap.allocs - base); }
};

// ---------------------------------------------------------------- events
class Event {
    char* p;
    bool open = true;
    void key(char const* k);
public:
    static constexpr size_t ROOM = 1 << 20;
    static char* buf;           // where the event under construction goes
    explicit Event(char const* o);
    Event(Event const&) = delete;
    ~Event() { if (open) cancel(); }
    void num(char const* k, long v);
    void str(char const* k, std::string const& v);
    void arr(char const* k, std::vector<int> const& v);
    void arr2(char const* k, std::vector<std::vector<int>> const& v);
    void al(Timed const& t) { num("al", t.count()); }
    void fatal(char const* why) { str("fatal", why); }
    void cancel() { open = false; }
    void done();
};
// when set, library blocks come from here
extern void* (*arena_take)(size_t);
extern bool (*arena_give)(void*);
void set_current(char const* op);       // what to blame if the process dies
long events();                          // events written so far
bool full();                            // the log is nearly full

// runs body in a child process and writes the log to path; a crash or hang becomes the last event
[[noreturn]] void broken(char const* why);
void raw_line(char const* s, size_t n);    // a line for the log as it is
int run_logged(char const* path, int hang_seconds, void (*body)(void*), void* arg);
} // namespace vx
