// Exploration engine: controlled scheduler, happens-before race detector, exact heap checker,
// DFS over schedules with happens-before state caching. Not instrumented itself.
#include "mc.h"
#include <pthread.h>
#include <sys/mman.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>

extern "C" char __libc_single_threaded;

namespace mc {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
enum { NT = MAX_THREADS + 1, STACK = 4 << 20 };
static const size_t ARENA_MAIN = 48u << 20, ARENA_W = 4u << 20, REDZONE = 32;

template <class T> struct Malloc {            // engine containers never live in the arena
  typedef T value_type;
  Malloc() {}
  template <class U> Malloc(const Malloc<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(const Malloc&) const { return true; }
  bool operator!=(const Malloc&) const { return false; }
};
template <class K, class V> using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Malloc<std::pair<const K, V>>>;
template <class K> using Set = std::unordered_set<K, std::hash<K>, std::equal_to<K>, Malloc<K>>;
// ---------------------------------------------------------------- contexts
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");
namespace abi { extern "C" void* __cxa_get_globals(); }

enum Op { OP_NONE, OP_START, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_ALOAD, OP_ASTORE, OP_ARMW, OP_POINT, OP_LOGA, OP_LOGB, OP_LOGW };
struct VC { u16 c[NT]; };
struct Thread {
  void* sp; char* stack;
  u64 eh[2];
  bool started, finished;
  Op op; uintptr_t addr;      // pending visible operation
  u64 H;
  VC vc, acqpend, relfence;
  int held, unchecked;
  bool noexplore;
};
struct Cell {                 // shadow of one byte
  u32 exec; u16 wclk; u8 wtid; u8 any;
  u16 r[NT], aw[NT], ar[NT];
};
struct LocH { u64 w = 0, r = 0, inc = 0; };
struct Sync { VC vc; };
struct Mutex { int owner = -1; VC vc; bool destroyed = false, init = false; int type = 0, depth = 0; };   // type: 1 = recursive, 2 = error checking

static char* arena; static size_t arena_size;           // one region, sub-arena per thread
static size_t sub_off[NT], sub_cap[NT], bump[NT];
static u8* gran;                                        // per 8 bytes: 0 unaddressable, 1..8 valid bytes, 0xfd freed
static Cell* cells;
static char *g_lo, *g_hi; static char* g_snap; static Cell* gcells;
static u32 exec_id = 0;
static bool in_exec = false, concurrent = false;
static int cur = 0; static int nthr = 0;
static Thread thr[NT];
static void* sched_sp; static u64 sched_eh[2];
static Map<uintptr_t, Mutex> mutexes;
static Map<uintptr_t, Sync> syncs;
static Map<uintptr_t, LocH> lochs;
static Map<uintptr_t, u8> touched;       // location -> worker mask (this execution)
static Set<uintptr_t> shared_locs;       // fixpoint set
static Set<uintptr_t> racy;              // words with a data race: accesses to them become scheduling points (fixpoint set)
static bool shared_grew = false;
static u64 evA, evB;                                    // sums for the observation clock
static std::vector<Event> events;
static size_t live = 0; static u64 allocs = 0;
static bool fault_on = false, fault_hit = false; static long fault_n = 0, fault_seen = 0;
static bool violated = false; static std::string vmsg;
static Options opt; static Test* test = nullptr;
static u64 n_access, exec_access; static u64 step_limit = 40000000;
static jmp_buf crash_jmp; static bool crash_armed = false;
static bool aborting = false;
static uintptr_t exe_base = 0;

static inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
  return x;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- violations
static void to_sched();
static void set_violation(const std::string& m) { if (!violated) { violated = true; vmsg = m; } }
[[noreturn]] static void die_exec() {        // leave the execution for good
  to_sched();
  abort();
}
[[noreturn]] void fail(const char* fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  bool was = in_exec; in_exec = false;
  set_violation(buf);
  if (!was && !crash_armed) { fprintf(stderr, "mc::fail outside an execution: %s\n", buf); _exit(3); }
  die_exec();
}
void check(bool ok, const char* what) { if (!ok) fail("%s", what); }
static void fail_at(const void* pc, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void fail_at(const void* pc, const char* fmt, ...) {
  char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  fail("%s [pc 0x%lx]", buf, (unsigned long)((uintptr_t)pc - exe_base));
}

// ---------------------------------------------------------------- arena
bool in_arena(const void* p) { return (char*)p >= arena && (char*)p < arena + arena_size; }
static void* arena_alloc(size_t n, size_t align = 16) {
  size_t need = ((n + 7) & ~size_t(7));
  size_t off = bump[cur] + REDZONE; off = ((sub_off[cur] + off + align - 1) & ~(align - 1)) - sub_off[cur];
  if (off + need + REDZONE > sub_cap[cur]) { in_exec = false; fprintf(stderr, "mc: arena exhausted\n"); set_violation("memory grows without bound (arena exhausted)"); die_exec(); }
  char* p = arena + sub_off[cur] + off;
  bump[cur] = off + need;
  size_t g = (p - arena) >> 3, full = n >> 3;
  // header: size, kept in the redzone
  *(size_t*)(p - 16) = n; *(size_t*)(p - 8) = 0x5ca1ab1e00ull + cur;
  memset(gran + g, 8, full);
  if (n & 7) gran[g + full] = n & 7;
  memset(p, 0xCD, need);
  ++live; ++allocs;
  return p;
}
static void arena_free(void* vp, const void* pc);
static void reset_arena() {
  for (int t = 0; t < NT; ++t) {
    if (bump[t]) memset(gran + (sub_off[t] >> 3), 0, (bump[t] + REDZONE + 64) >> 3);
    bump[t] = 0;
  }
  live = 0; allocs = 0;
}
size_t live_blocks() { return live; }
static long live_mx; long live_mutexes() { return live_mx; }
uint64_t alloc_count() { return allocs; }
static void maybe_fault_alloc() {
  if (fault_on) { ++fault_seen; if (fault_seen == fault_n) { fault_hit = true; throw std::bad_alloc(); } }
}
void fault_point() {
  if (fault_on) { ++fault_seen; if (fault_seen == fault_n) { fault_hit = true; throw injected(); } }
}
void fault_arm(long n) { fault_on = true; fault_n = n; fault_seen = 0; fault_hit = false; }
void fault_disarm() { fault_on = false; }
bool fault_fired() { return fault_hit; }
long fault_steps() { return fault_seen; }

// ---------------------------------------------------------------- access checking
static inline void race(const char* kind, uintptr_t a, int other, const void* pc) {
  if (opt.racepoints) { if (racy.insert(a & ~uintptr_t(7)).second) shared_grew = true; return; }
  fail_at(pc, "data race: %s by thread %d conflicts with an unordered access of thread %d", kind, cur, other);
}
enum Acc { RD, WR, ARD, AWR };
static inline bool hb(int t, u16 clk) { return clk <= thr[cur].vc.c[t]; }
static inline void cell_access(Cell& c, Acc k, uintptr_t a, const void* pc) {
  if (c.exec != exec_id) { memset(&c, 0, sizeof c); c.exec = exec_id; }
  Thread& T = thr[cur]; u16 me = T.vc.c[cur];
  static const char* nm[] = {"read", "write", "atomic read", "atomic write"};
  // fast path: only this thread ever touched it
  if (c.any & ~(1u << cur)) {
    if (c.wclk && c.wtid != cur && !hb(c.wtid, c.wclk)) race(nm[k], a, c.wtid, pc);
    for (int t = 1; t <= nthr; ++t) if (t != cur && (c.any >> t & 1)) {
      if (k == WR || k == AWR) if (c.r[t] && !hb(t, c.r[t])) race(nm[k], a, t, pc);
      if (k == RD || k == WR) if (c.aw[t] && !hb(t, c.aw[t])) race(nm[k], a, t, pc);
      if (k == WR) if (c.ar[t] && !hb(t, c.ar[t])) race(nm[k], a, t, pc);
    }
  }
  c.any |= 1u << cur;
  switch (k) {
    case RD: c.r[cur] = me; break;
    case WR: c.wclk = me; c.wtid = cur; break;
    case ARD: c.ar[cur] = me; break;
    case AWR: c.aw[cur] = me; break;
  }
}
static void racy_access(uintptr_t a, size_t n, Acc k);
static inline void mem_access(const void* vp, size_t n, Acc k, const void* pc) {
  if (!in_exec) return;
  ++n_access;
  if (concurrent && !racy.empty() && (k == RD || k == WR) && !thr[cur].unchecked) racy_access((uintptr_t)vp, n, k);
  if (++exec_access > step_limit) { fail_at(pc, "execution does not terminate (step limit)"); }
  uintptr_t a = (uintptr_t)vp;
  Cell* base;
  if ((char*)vp >= arena && (char*)vp < arena + arena_size) {
    size_t o = (char*)vp - arena;
    if (opt.memory && !thr[cur].unchecked) {
      for (size_t i = 0; i < n;) {
        u8 g = gran[(o + i) >> 3]; size_t in = (o + i) & 7;
        size_t m = std::min(n - i, 8 - in);
        if (g == 0xfd) fail_at(pc, "use after free: %s of %zu bytes by thread %d", k == WR || k == AWR ? "write" : "read", n, cur);
        if (g > 8 || in + m > g) fail_at(pc, "out-of-bounds heap access: %s of %zu bytes by thread %d", k == WR || k == AWR ? "write" : "read", n, cur);
        i += m;
      }
    }
    base = cells + o;
  } else if ((char*)vp >= g_lo && (char*)vp < g_hi) base = gcells + ((char*)vp - g_lo);
  else {
    if (a < 4096) fail_at(pc, "null pointer access by thread %d", cur);
    return;
  }
  if (!concurrent || !(opt.races || opt.racepoints) || thr[cur].unchecked) return;
  for (size_t i = 0; i < n; ++i) cell_access(base[i], k, a + i, pc);
}
static void arena_free(void* vp, const void* pc) {
  char* p = (char*)vp;
  if (!in_exec && !aborting) return;
  size_t o = p - arena;
  if ((o & 15) || *(size_t*)(p - 8) >> 8 != 0x5ca1ab1e00ull >> 8) fail_at(pc, "free of a pointer that was never allocated");
  size_t n = *(size_t*)(p - 16);
  if (n && gran[o >> 3] == 0xfd) fail_at(pc, "double free");
  if (n) mem_access(p, n, WR, pc);           // freeing conflicts with every unordered access
  size_t g = (n + 7) >> 3;
  memset(gran + (o >> 3), 0xfd, g);
  memset(p, 0xDD, n);
  --live;
}

// ---------------------------------------------------------------- scheduler core
static inline bool visible(uintptr_t a) {      // is this location contended between workers?
  u8& m = touched[a];
  u8 bit = 1u << cur;
  if (!(m & bit)) {
    m |= bit;
    if ((m & (m - 1)) && shared_locs.insert(a).second) shared_grew = true;
  }
  return shared_locs.count(a) != 0;
}
static void save_eh(u64* d) { memcpy(d, abi::__cxa_get_globals(), 16); }
static void load_eh(const u64* d) { memcpy(abi::__cxa_get_globals(), d, 16); }
static void to_sched() {
  int me = cur;
  save_eh(thr[me].eh); load_eh(sched_eh);
  bool was = in_exec; in_exec = false;
  mc_switch(&thr[me].sp, sched_sp);
  in_exec = was; cur = me;
}
static void to_thread(int t) {
  save_eh(sched_eh); load_eh(thr[t].eh);
  cur = t; in_exec = true;
  mc_switch(&sched_sp, thr[t].sp);
  in_exec = false;
}
static void yield_op(Op op, uintptr_t addr) {  // announce a visible operation, wait to be scheduled
  Thread& T = thr[cur];
  T.op = op; T.addr = addr;
  to_sched();
  T.op = OP_NONE;
}
static void join(VC& a, const VC& b) { for (int i = 0; i < NT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void tick() { ++thr[cur].vc.c[cur]; }
static void h_write(uintptr_t a, u64 tag) {
  LocH& l = lochs[a]; u64& H = thr[cur].H;
  H = mix(mix(H, l.w), mix(l.r + 1, mix(l.inc, tag))); l.w = H; l.r = 0; l.inc = 0;
}
static void h_read(uintptr_t a, u64 tag) {
  LocH& l = lochs[a]; u64& H = thr[cur].H;
  H = mix(mix(H, l.w), mix(l.inc, tag)); l.r += H;
}
static void h_inc(uintptr_t a) {             // relaxed increment: commutes with other increments
  LocH& l = lochs[a]; u64& H = thr[cur].H;
  H = mix(mix(H, l.w), mix(l.r + 7, 77)); l.inc += H;
}

static void racy_access(uintptr_t a, size_t n, Acc k) {
  bool any = false;
  for (uintptr_t w = a & ~uintptr_t(7); w < a + n; w += 8) if (racy.count(w)) {
    if (!any) { any = true; yield_op(OP_POINT, 0); }
    if (k == RD) h_read(w ^ 1, 5); else h_write(w ^ 1, 6);       // ^ 1: apart from atomics and mutexes at the same address
  }
}
void point() { if (in_exec && concurrent) { yield_op(OP_POINT, 0); thr[cur].H = mix(thr[cur].H, 0x1234); } }
int tid() { return cur; }
int locks_held() { return thr[cur].held; }
void unchecked_begin() { ++thr[cur].unchecked; }
void unchecked_end() { --thr[cur].unchecked; }
static void add_event(int kind, int a, int b, int c) {
  bool w = in_exec; in_exec = false;
  events.push_back(Event{(u8)cur, (u8)kind, (int16_t)a, b, c});
  if (events.size() > 2000000) { fprintf(stderr, "mc: event log overflow\n"); set_violation("execution does not terminate (event log limit)"); die_exec(); }
  in_exec = w;
}
void log(int kind, int a, int b, int c) { add_event(kind, a, b, c); }
}
namespace mc {
// observation clock: A-events (ends) and B-events (begins) do not commute with each other
void log_end(int kind, int a, int b, int c) {
  if (in_exec && concurrent) { yield_op(OP_LOGA, 0); u64& H = thr[cur].H; H = mix(H, mix(evB, 0xA)); evA += H; }
  add_event(kind, a, b, c);
}
void log_begin(int kind, int a, int b, int c) {
  if (in_exec && concurrent) { yield_op(OP_LOGB, 0); u64& H = thr[cur].H; H = mix(H, mix(evA, 0xB)); evB += H; }
  add_event(kind, a, b, c);
}
void log_both(int kind, int a, int b, int c) {
  if (in_exec && concurrent) { yield_op(OP_LOGW, 0); u64& H = thr[cur].H; H = mix(mix(H, evA), mix(evB, 0xC)); evA += H; evB += H * 3; }
  add_event(kind, a, b, c);
}

// ---------------------------------------------------------------- mutexes
static bool m_relock(uintptr_t a) { Mutex& m = mutexes[a]; if (m.owner != cur || m.type != 1 || m.destroyed) return false; ++m.depth; return true; }
static void m_lock(uintptr_t a, const void* pc) {
  if (m_relock(a)) return;
  if (!concurrent) {
    Mutex& m = mutexes[a];
    if (m.destroyed) fail_at(pc, "lock of a destroyed mutex");
    if (m.owner == cur) fail_at(pc, "self-deadlock: thread %d locks a mutex it already holds", cur);
    if (m.owner != -1) fail_at(pc, "lock of a mutex still held by ended thread %d", m.owner);
    m.owner = cur; ++thr[cur].held; return;
  }
  { Mutex& m = mutexes[a]; if (m.owner == cur) fail_at(pc, "self-deadlock: thread %d locks a mutex it already holds", cur); }
  if (visible(a)) yield_op(OP_LOCK, a);
  Mutex& m = mutexes[a];
  if (m.destroyed) fail_at(pc, "lock of a destroyed mutex");
  if (m.owner != -1) {           // not known to be shared: becomes shared now
    if (m.owner == cur) fail_at(pc, "self-deadlock: thread %d locks a mutex it already holds", cur);
    if (shared_locs.insert(a).second) shared_grew = true;
    yield_op(OP_LOCK, a);
  }
  mutexes[a].owner = cur; ++thr[cur].held;
  join(thr[cur].vc, mutexes[a].vc);
  h_write(a, 1);
}
static bool m_trylock(uintptr_t a, const void* pc) {
  if (m_relock(a)) return true;
  if (concurrent && visible(a)) yield_op(OP_TRYLOCK, a);
  Mutex& m = mutexes[a];
  if (m.destroyed) fail_at(pc, "lock of a destroyed mutex");
  if (concurrent) h_write(a, 2);
  if (m.owner != -1) return false;
  m.owner = cur; ++thr[cur].held;
  if (concurrent) join(thr[cur].vc, m.vc);
  return true;
}
static void m_unlock(uintptr_t a, const void* pc) {
  Mutex& m = mutexes[a];
  if (m.destroyed) fail_at(pc, "unlock of a destroyed mutex");
  if (m.owner != cur) fail_at(pc, "thread %d unlocks a mutex it does not hold", cur);
  if (m.depth) { --m.depth; return; }
  m.owner = -1; --thr[cur].held;
  if (concurrent) { m.vc = thr[cur].vc; tick(); h_write(a, 3); visible(a); }
}
// ---------------------------------------------------------------- atomics
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void a_pre(const void* p, size_t n, Op op, bool inc, int tag, const void* pc) {
  uintptr_t a = (uintptr_t)p;
  if (!in_exec) return;
  if (concurrent) {
    if (visible(a)) {
      mem_access(p, n, op == OP_ALOAD ? ARD : AWR, pc);
      yield_op(op, a);
    }
    if (op == OP_ALOAD) h_read(a, tag); else if (inc) h_inc(a); else h_write(a, tag);
  }
  mem_access(p, n, op == OP_ALOAD ? ARD : AWR, pc);
}
static void a_post(const void* p, Op op, int mo, bool wrote) {
  if (!in_exec || !concurrent) return;
  Sync& s = syncs[(uintptr_t)p]; Thread& T = thr[cur];
  if (op != OP_ASTORE) { if (is_acq(mo)) join(T.vc, s.vc); else join(T.acqpend, s.vc); }
  if (wrote) {
    if (is_rel(mo)) { if (op == OP_ARMW) join(s.vc, T.vc); else s.vc = T.vc; tick(); }
    else { if (op == OP_ARMW) join(s.vc, T.relfence); else s.vc = T.relfence; }
  }
}
static void a_fence(int mo) {
  if (!in_exec || !concurrent) return;
  Thread& T = thr[cur];
  if (is_acq(mo)) join(T.vc, T.acqpend);
  if (is_rel(mo)) { T.relfence = T.vc; tick(); }
}

// ---------------------------------------------------------------- execution
static void worker_main(int i) {
  try { test->thread(i - 1); }
  catch (const std::exception& e) { fail("uncaught exception in thread %d: %s", i, e.what()); }
  catch (...) { fail("uncaught exception in thread %d", i); }
}
static void thread_entry() {
  int i = cur;
  if (i == 0) {
    try { if (!concurrent) { if (thr[0].op == OP_START) test->setup(); else test->finish(); } }
    catch (const std::exception& e) { fail("uncaught exception: %s", e.what()); }
    catch (...) { fail("uncaught exception"); }
  } else worker_main(i);
  in_exec = false;
  thr[i].finished = true;
  if (i && thr[i].held) set_violation("thread ended holding a mutex");
  to_sched();
  abort();
}
static void make_ctx(int t) {
  Thread& T = thr[t];
  uintptr_t top = (uintptr_t)T.stack + STACK - 256;
  top &= ~uintptr_t(15);
  void** sp = (void**)top;
  *--sp = 0;                        // alignment / fake return
  *--sp = (void*)thread_entry;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  T.sp = sp;
  T.eh[0] = T.eh[1] = 0;
  T.finished = false; T.started = true;
}
struct Node { u8 n, next, en[NT]; int rem; bool cur_enabled; };

static bool run_main(bool fin) {    // false: violated
  cur = 0; thr[0].op = fin ? OP_NONE : OP_START; thr[0].held = 0; thr[0].unchecked = 0;
  make_ctx(0);
  to_thread(0);
  thr[0].op = OP_NONE;
  return !violated;
}
static bool enabled(int t) {
  if (thr[t].finished) return false;
  if (thr[t].op == OP_LOCK) { auto it = mutexes.find(thr[t].addr); return it == mutexes.end() || it->second.owner == -1; }
  return true;
}
static void begin_exec() {
  ++exec_id; exec_access = 0;
  reset_arena();
  if (g_snap) memcpy(g_lo, g_snap, g_hi - g_lo);
  mutexes.clear(); live_mx = 0; syncs.clear(); lochs.clear(); touched.clear(); events.clear();
  evA = evB = 0; violated = false; vmsg.clear(); fault_on = false; fault_hit = false; concurrent = false;
  for (int t = 0; t < NT; ++t) { memset(&thr[t].vc, 0, sizeof(VC)); thr[t].acqpend = thr[t].relfence = thr[t].vc; thr[t].H = mix(t, 99); thr[t].held = 0; thr[t].unchecked = 0; thr[t].finished = true; thr[t].op = OP_NONE; }
}

struct Explorer {
  Test& t; Options o; Result r; std::vector<Node> stack;
  std::unordered_map<u64, int> visited; std::unordered_set<u64> outs;
  std::vector<int> sched; bool diverged = false;
  Explorer(Test& t, const Options& o): t(t), o(o) {}

  // returns: 0 completed, 1 pruned, 2 violated
  int run(const std::vector<int>* fixed) {
    test = &t; opt = o; step_limit = o.steps; sched.clear();
    begin_exec();
    struct sigaction sa; (void)sa;
    ++r.executions;
    crash_armed = true;
    int code = body(fixed);
    crash_armed = false;
    return code;
  }
  int body(const std::vector<int>* fixed) {
    if (setjmp(crash_jmp)) { in_exec = false; concurrent = false; return 2; }
    nthr = 0;
    if (!run_main(false)) return 2;
    int n = t.threads();
    if (n > 0) {
      nthr = n; concurrent = true;
      for (int i = 1; i <= n; ++i) {
        make_ctx(i); thr[i].op = OP_START; thr[i].held = 0; thr[i].unchecked = 0;
        thr[i].vc.c[i] = 1;
        thr[i].H = mix(0xabc, i);
      }
      int last = 0; size_t depth = 0;
      int rem = o.preemptions;
      for (;;) {
        int en[NT], ne = 0; bool cur_en = last && enabled(last);
        bool all_done = true;
        for (int i = 1; i <= n; ++i) if (!thr[i].finished) all_done = false;
        if (all_done) break;
        if (cur_en) en[ne++] = last;
        for (int i = 1; i <= n; ++i) if (i != last && enabled(i)) en[ne++] = i;
        if (ne == 0) {
          std::string m = "deadlock:";
          for (int i = 1; i <= n; ++i) if (!thr[i].finished) {
            char b[96]; int ow = mutexes.count(thr[i].addr) ? mutexes[thr[i].addr].owner : -1;
            snprintf(b, sizeof b, " thread %d waits for a mutex held by thread %d;", i, ow); m += b;
          }
          set_violation(m); concurrent = false; return 2;
        }
        int choice = 0;
        if (cur_en && o.preemptions >= 0 && rem <= 0) ne = 1;
        if (ne > 1 || true) {
          if (depth >= 20000) { set_violation("execution does not terminate (schedule length limit)"); concurrent = false; return 2; }
          if (fixed) {
            choice = depth < fixed->size() ? (*fixed)[depth] : 0;
            if (choice >= ne) { diverged = true; choice = 0; }
          } else if (depth < stack.size()) {
            Node& nd = stack[depth];
            bool same = nd.n == ne; for (int i = 0; same && i < ne; ++i) same = nd.en[i] == en[i];
            if (!same) { diverged = true; fprintf(stderr, "mc: replay diverged at depth %zu\n", depth); set_violation("NONDETERMINISM: replay diverged"); concurrent = false; return 2; }
            choice = nd.next;
          } else {
            u64 key = 0;
            for (int i = 1; i <= n; ++i) key = mix(key, thr[i].finished ? thr[i].H + 1 : thr[i].H);
            if (o.preemptions >= 0) key = mix(key, cur_en ? last : 0);
            if (o.state_cache) {
              auto it = visited.find(key);
              if (it != visited.end() && (o.preemptions < 0 || it->second >= rem)) { concurrent = false; return 1; }
              visited[key] = rem;
            }
            Node nd; nd.n = ne; nd.next = 0; nd.rem = rem; nd.cur_enabled = cur_en;
            for (int i = 0; i < ne; ++i) nd.en[i] = en[i];
            stack.push_back(nd);
            ++r.points;
          }
          sched.push_back(choice);
          ++depth; if (depth > r.max_points) r.max_points = depth;
        }
        int next = en[choice];
        if (cur_en && next != last && o.preemptions >= 0) --rem;
        last = next;
        ++r.transitions;
        if (thr[next].op == OP_START) thr[next].H = mix(thr[next].H, 0x57a7);
        to_thread(next);
        if (violated) { concurrent = false; return 2; }
      }
      concurrent = false;
    }
    nthr = 0;
    if (!run_main(true)) return 2;
    return 0;
  }
  bool backtrack() {
    while (!stack.empty()) {
      Node& nd = stack.back();
      if (++nd.next < nd.n) return true;
      stack.pop_back();
    }
    return false;
  }
  std::string trace() {
    std::string s;
    for (auto& e : events) s += t.describe(e) + "\n";
    return s;
  }
  bool judge(int code) {            // true: violation
    if (code == 1) { ++r.pruned; return false; }
    if (code == 0) {
      ++r.complete;
      std::string m = t.oracle(events);
      outs.insert(t.outcome(events));
      if (m.empty()) return false;
      set_violation(m);
    }
    if (!t.relevant(vmsg)) { if (!r.ignored++) r.ignored_message = vmsg; return false; }
    r.violation = true; r.message = vmsg; r.schedule = sched; r.trace = trace();
    // replay the very same schedule: it must fail the same way
    std::vector<int> s = sched; std::string m1 = vmsg; std::string t1 = r.trace;
    int c2 = run(&s); --r.executions;
    if (c2 == 0) { std::string m = t.oracle(events); if (!m.empty()) set_violation(m); }
    if (vmsg != m1 || trace() != t1) r.deterministic = false;
    return true;
  }
  Result go() {
    double t0 = now();
  restart:
    stack.clear(); visited.clear(); outs.clear(); shared_grew = false;
    for (;;) {
      int code = run(nullptr);
      if (judge(code)) { r.exhausted = false; break; }
      if (shared_grew) { ++r.restarts; if (r.restarts < 10000) goto restart; }
      if (!backtrack()) break;
      if (o.max_exec && r.executions >= o.max_exec) { r.exhausted = false; break; }
      if (o.seconds > 0 && (r.executions & 63) == 0 && now() - t0 > o.seconds) { r.exhausted = false; break; }
    }
    r.states = visited.size(); if (!t.threads()) r.states = 1;
    r.outcomes = outs.size(); r.accesses = n_access; n_access = 0;
    return r;
  }
};

std::string Test::describe(const Event& e) const {
  char b[96]; snprintf(b, sizeof b, "t%d k%d a%d b%d c%d", e.tid, e.kind, e.a, e.b, e.c); return b;
}
uint64_t Test::outcome(const std::vector<Event>& v) const {
  u64 h = 1; for (auto& e : v) h = mix(h, mix(e.tid * 256u + e.kind, mix((u16)e.a, ((u64)(u32)e.b << 32) | (u32)e.c))); return h;
}
// globals of the executable are put back to their state at the start of the exploration before every execution
struct GlobalGuard { GlobalGuard() { memcpy(g_snap, g_lo, g_hi - g_lo); } ~GlobalGuard() { memcpy(g_lo, g_snap, g_hi - g_lo); } };
// locations in a form that is the same in every run of the executable: offset * 4 + (global?) * 2 + (racy?)
static long loc_code(uintptr_t a, int r) {
  if ((char*)a >= arena && (char*)a < arena + arena_size) return (long)((char*)a - arena) * 4 + r;
  if ((char*)a >= g_lo && (char*)a < g_hi) return (long)((char*)a - g_lo) * 4 + 2 + r;
  return -1;
}
Result explore(Test& t, const Options& o) { GlobalGuard gg; shared_locs.clear(); racy.clear(); Explorer e(t, o); Result r = e.go(); r.racy = racy.size();
  if (r.violation) { for (auto a : shared_locs) r.locs.push_back(loc_code(a, 0)); for (auto a : racy) r.locs.push_back(loc_code(a, 1)); }
  return r; }
Result replay(Test& t, const Options& o, const std::vector<int>& s, const std::vector<long>& locs) {
  GlobalGuard gg; shared_locs.clear(); racy.clear();
  for (long l : locs) if (l >= 0) { uintptr_t a = (uintptr_t)((l & 2 ? g_lo : arena) + (l >> 2)); if (l & 1) racy.insert(a); else shared_locs.insert(a); }
  // the shared set must be the fixpoint one of the exploration: rebuild it along the schedule
  Explorer e(t, o);
  int code = 0;
  for (int i = 0; i < 2000; ++i) { shared_grew = false; e.diverged = false; code = e.run(&s); if (!shared_grew || code == 2) break; }
  if (code == 0) { std::string m = t.oracle(events); if (!m.empty()) { set_violation(m); code = 2; } }
  e.r.violation = code == 2; e.r.message = vmsg; e.r.schedule = e.sched; e.r.trace = e.trace();
  return e.r;
}

// ---------------------------------------------------------------- init
static void on_segv(int sig, siginfo_t* si, void*) {
  if (!crash_armed) { signal(sig, SIG_DFL); return; }
  char b[128]; snprintf(b, sizeof b, "crash: signal %d (address %p) in thread %d", sig, si->si_addr, cur);
  in_exec = false; set_violation(b);
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, 0);
  load_eh(sched_eh);
  longjmp(crash_jmp, 1);
}
static void on_terminate() {
  if (!crash_armed) abort();
  in_exec = false; set_violation("std::terminate called (exception escaped a noexcept context)");
  load_eh(sched_eh);
  longjmp(crash_jmp, 1);
}
static bool inited = false;
void init() {
  if (inited) return; inited = true;
  __libc_single_threaded = 0;
  size_t tot = ARENA_MAIN + MAX_THREADS * ARENA_W;
  auto map = [](size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (char*)p; };
  arena = map(tot); arena_size = tot;
  gran = (u8*)map(tot / 8); cells = (Cell*)map(tot * sizeof(Cell));
  sub_off[0] = 0; sub_cap[0] = ARENA_MAIN;
  for (int i = 1; i < NT; ++i) { sub_off[i] = ARENA_MAIN + (i - 1) * ARENA_W; sub_cap[i] = ARENA_W; }
  for (int i = 0; i < NT; ++i) thr[i].stack = map(STACK);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  static char alt[65536]; stack_t st; st.ss_sp = alt; st.ss_size = sizeof alt; st.ss_flags = 0; sigaltstack(&st, 0);
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0);
  std::set_terminate(on_terminate);
  // writable segment of the executable
  FILE* f = fopen("/proc/self/maps", "r"); char line[512], exe[512]; ssize_t k = readlink("/proc/self/exe", exe, 511); exe[k > 0 ? k : 0] = 0;
  g_lo = (char*)dlsym(RTLD_DEFAULT, "__data_start"); g_hi = (char*)dlsym(RTLD_DEFAULT, "_end");
  bool seen = false;
  while (fgets(line, sizeof line, f)) if (strstr(line, exe)) { if (!seen) { exe_base = strtoull(line, 0, 16); seen = true; } }
  fclose(f);
  if (!g_lo || !g_hi) { fprintf(stderr, "mc: link the harness with -rdynamic\n"); _exit(3); }
  g_snap = map(g_hi - g_lo + 4096); gcells = (Cell*)map((g_hi - g_lo) * sizeof(Cell));
  memcpy(g_snap, g_lo, g_hi - g_lo);
}
} // namespace mc

// ==================================================================== interposition
using namespace mc;
#define PC __builtin_return_address(0)
static int (*real_lock)(pthread_mutex_t*), (*real_unlock)(pthread_mutex_t*), (*real_try)(pthread_mutex_t*), (*real_init)(pthread_mutex_t*, const pthread_mutexattr_t*), (*real_destroy)(pthread_mutex_t*);
template <class F> static void real(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); }
struct NoExec { bool w; NoExec(): w(in_exec) {} };
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  if (!in_exec) { real(real_init, "pthread_mutex_init"); return real_init(m, a); }
  bool w = in_exec; in_exec = false; Mutex& x = mutexes[(uintptr_t)m]; x = Mutex(); x.init = true; ++live_mx; memset(&x.vc, 0, sizeof x.vc); if (a) { int ty = 0; pthread_mutexattr_gettype(a, &ty); x.type = ty == PTHREAD_MUTEX_RECURSIVE ? 1 : ty == PTHREAD_MUTEX_ERRORCHECK ? 2 : 0; } in_exec = w;
  mem_access(m, sizeof(*m), WR, PC);
  memset(m, 0, sizeof *m);
  return 0;
}
// a mutex that was never initialised has to look like PTHREAD_MUTEX_INITIALIZER
static void m_inited(pthread_mutex_t* m, void* pc) {
  Mutex& x = mutexes[(uintptr_t)m]; if (x.init) return;
  const unsigned char* b = (const unsigned char*)m; for (size_t i = 0; i < sizeof *m; ++i) if (b[i]) fail_at(pc, "a mutex is used without being initialised");
  x.init = true;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!in_exec) { real(real_destroy, "pthread_mutex_destroy"); return real_destroy(m); }
  Mutex& x = mutexes[(uintptr_t)m];
  if (x.owner != -1) fail_at(PC, "a mutex is destroyed while thread %d holds it", x.owner);
  if (x.destroyed) fail_at(PC, "a mutex is destroyed twice");
  x.destroyed = true; --live_mx;
  mem_access(m, sizeof(*m), WR, PC);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_exec) { real(real_lock, "pthread_mutex_lock"); return real_lock(m); }
  mem_access(m, sizeof(*m), ARD, PC);
  m_inited(m, PC);
  { Mutex& x = mutexes[(uintptr_t)m]; if (x.type == 2 && x.owner == cur) return 35 /*EDEADLK*/; }
  m_lock((uintptr_t)m, PC);
  mem_access(m, sizeof(*m), ARD, PC);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in_exec) { real(real_try, "pthread_mutex_trylock"); return real_try(m); }
  mem_access(m, sizeof(*m), ARD, PC);
  m_inited(m, PC);
  return m_trylock((uintptr_t)m, PC) ? 0 : 16 /*EBUSY*/;
}
// a timed lock may time out whenever the mutex is not free
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
  static int (*f)(pthread_mutex_t*, const timespec*); if (!in_exec) { real(f, "pthread_mutex_timedlock"); return f(m, t); }
  mem_access(m, sizeof(*m), ARD, PC); return m_trylock((uintptr_t)m, PC) ? 0 : 110 /*ETIMEDOUT*/; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
  static int (*f)(pthread_mutex_t*, clockid_t, const timespec*); if (!in_exec) { real(f, "pthread_mutex_clocklock"); return f(m, c, t); }
  mem_access(m, sizeof(*m), ARD, PC); return m_trylock((uintptr_t)m, PC) ? 0 : 110; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!in_exec) { real(real_unlock, "pthread_mutex_unlock"); return real_unlock(m); }
  mem_access(m, sizeof(*m), ARD, PC);
  { Mutex& x = mutexes[(uintptr_t)m]; if (x.type == 2 && x.owner != cur) return 1 /*EPERM*/; }
  m_unlock((uintptr_t)m, PC);
  return 0;
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* a) { mem_access(a, n, RD, PC); } \
  void __tsan_write##n(void* a) { mem_access(a, n, WR, PC); } \
  void __tsan_unaligned_read##n(void* a) { mem_access(a, n, RD, PC); } \
  void __tsan_unaligned_write##n(void* a) { mem_access(a, n, WR, PC); } \
  void __tsan_volatile_read##n(void* a) { mem_access(a, n, RD, PC); } \
  void __tsan_volatile_write##n(void* a) { mem_access(a, n, WR, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { mem_access(a, n, RD, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { mem_access(a, n, WR, PC); } \
  void __tsan_read_write##n(void* a) { mem_access(a, n, RD, PC); mem_access(a, n, WR, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { mem_access(a, n, RD, PC); mem_access(a, n, WR, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { mem_access(a, n, RD, PC); }
void __tsan_write_range(void* a, unsigned long n) { mem_access(a, n, WR, PC); }
void __tsan_vptr_update(void** a, void*) { mem_access(a, 8, WR, PC); }
void __tsan_vptr_read(void** a) { mem_access(a, 8, RD, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { mem_access(s, n, RD, PC); mem_access(d, n, WR, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { mem_access(s, n, RD, PC); mem_access(d, n, WR, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) mem_access(d, n, WR, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
#define RMW(B, T, name, expr) \
  T __tsan_atomic##B##_##name(volatile T* a, T v, int mo) { \
    bool inc = (#name[6] == 'a' && #name[7] == 'd') && mo == 0; \
    a_pre((const void*)a, sizeof(T), OP_ARMW, inc, 10, PC); T o = *a; *a = expr; a_post((const void*)a, OP_ARMW, mo, true); return o; }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { a_pre((const void*)a, sizeof(T), OP_ALOAD, false, 11, PC); T v = *a; a_post((const void*)a, OP_ALOAD, mo, false); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { a_pre((const void*)a, sizeof(T), OP_ASTORE, false, 12, PC); *a = v; a_post((const void*)a, OP_ASTORE, mo, true); } \
  RMW(B, T, exchange, v) RMW(B, T, fetch_add, (T)(o + v)) RMW(B, T, fetch_sub, (T)(o - v)) RMW(B, T, fetch_and, (T)(o & v)) \
  RMW(B, T, fetch_or, (T)(o | v)) RMW(B, T, fetch_xor, (T)(o ^ v)) RMW(B, T, fetch_nand, (T)~(o & v)) \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
    a_pre((const void*)a, sizeof(T), OP_ARMW, false, 13, PC); T o = *a; bool ok = o == *e; \
    if (ok) *a = v; else *e = o; a_post((const void*)a, OP_ARMW, ok ? mo : fmo, ok); return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
void* operator new(size_t n) {
  if (!in_exec) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
  maybe_fault_alloc();
  return arena_alloc(n);
}
void* operator new(size_t n, std::align_val_t a) {
  size_t al = (size_t)a < 16 ? 16 : (size_t)a;
  if (!in_exec) { void* p = 0; if (posix_memalign(&p, al, n ? n : 1)) abort(); return p; }
  maybe_fault_alloc();
  return arena_alloc(n, al);
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept;
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
static void del(void* p, const void* pc) {
  if (!p) return;
  if (in_arena(p)) arena_free(p, pc);
  else free(p);
}
void operator delete(void* p) noexcept { del(p, PC); }
void operator delete[](void* p) noexcept { del(p, PC); }
void operator delete(void* p, size_t) noexcept { del(p, PC); }
void operator delete[](void* p, size_t) noexcept { del(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { del(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p, PC); }
