// C24: signals2::mutex and dummy_mutex, all short programs of 2-3 threads over all schedules.
#include "unit.h"
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <mutex>
using boost::signals2::mutex; using boost::signals2::dummy_mutex;
enum Ev { LB = 1, LE, UB, UE, TB, TE };        // event a: mutex, b: result
static mutex* m[2]; static long data[2]; static int entries[8][2];
static void crit(int k) { long d = data[k]; mc::point(); if (data[k] != d) mc::fail("two threads are inside mutex %d", k); data[k] = d + 1; ++entries[mc::tid()][k]; }
static void lock(int k) { mc::log(LB, k); m[k]->lock(); mc::log(LE, k); }
static void unlock(int k) { mc::log(UB, k); m[k]->unlock(); mc::log(UE, k); }
static bool tryl(int k) { mc::log(TB, k); bool r = m[k]->try_lock(); mc::log(TE, k, r); return r; }
enum Op { NONE, LOCK0, TRY0, HELDTRY, NEST, CROSSTRY, LOCK1, TRY1, TWICE, STDGUARD, RELOCK, NOP };
static void op(int o) {
  switch (o) {
    case LOCK0: lock(0); crit(0); unlock(0); break;
    case TRY0: if (tryl(0)) { crit(0); unlock(0); } break;
    case HELDTRY: lock(0); if (tryl(0)) mc::fail("try_lock of a held mutex succeeds"); crit(0); unlock(0); break;
    case NEST: lock(0); lock(1); crit(0); crit(1); unlock(1); unlock(0); break;
    case CROSSTRY: lock(1); if (tryl(0)) { crit(0); crit(1); unlock(0); } else crit(1); unlock(1); break;      // waits for nothing while it holds 1
    case LOCK1: lock(1); crit(1); unlock(1); break;
    case TRY1: if (tryl(1)) { crit(1); unlock(1); } break;
    case TWICE: if (tryl(0)) { if (tryl(0)) mc::fail("try_lock of a held mutex succeeds"); crit(0); unlock(0); } if (tryl(0)) { crit(0); unlock(0); } break;
    case STDGUARD: try { mc::log(LB, 0); std::unique_lock<mutex> g(*m[0]); mc::log(LE, 0); crit(0); mc::log(UB, 0); throw 1; } catch (int) { mc::log(UE, 0); } break;
    case RELOCK: lock(0); crit(0); unlock(0); lock(0); crit(0); unlock(0); break;
  }
}
static void setup(const Vec&) { for (int k = 0; k < 2; ++k) { m[k] = new mutex; data[k] = 0; for (int t = 0; t < 8; ++t) entries[t][k] = 0; } }
static const int PER = 3;
static void thread(const Vec& v, int i) { for (int q = 0; q < PER; ++q) op(v[i * PER + q]); }
static void finish(const Vec&) { for (int k = 0; k < 2; ++k) { if (!m[k]->try_lock()) mc::fail("a free mutex cannot be locked"); if (m[k]->try_lock()) mc::fail("try_lock of a held mutex succeeds"); m[k]->unlock(); m[k]->lock(); m[k]->unlock(); long n = 0; for (int t = 0; t < 8; ++t) n += entries[t][k]; if (data[k] != n) mc::fail("an update made under the mutex is lost"); delete m[k]; } }
static Reg r2("mutex2", setup, 2, thread, finish), r3("mutex3", setup, 3, thread, finish);
// a try_lock may fail only if another thread may hold the mutex at some moment of the call
static std::string oracle(const std::vector<mc::Event>& ev) {
  for (size_t i = 0; i < ev.size(); ++i) if (ev[i].kind == TE && !ev[i].b && ev[i].tid) {
    size_t b = i; while (ev[b].kind != TB || ev[b].tid != ev[i].tid) --b;
    bool may = false; int hold[8] = {0};        // per thread: between the begin of an acquisition and the end of its release
    for (size_t q = 0; q <= i; ++q) { const mc::Event& e = ev[q]; if (e.a != ev[i].a) continue;
      if (e.kind == LB || e.kind == TB) ++hold[e.tid]; else if (e.kind == UE || (e.kind == TE && !e.b)) --hold[e.tid];
      if (q >= b) for (int t = 0; t < 8; ++t) if (t != ev[i].tid ? hold[t] > 0 : hold[t] > (q < i ? 1 : 0)) may = true; }
    if (!may) return "try_lock fails on a free mutex";
  }
  return "";
}
// dummy_mutex: any sequence, never waits, always succeeds
static void dummy_body(const Vec& v) { dummy_mutex d[2]; for (int o : v) { dummy_mutex& x = d[o & 1]; switch (o >> 1) { case 0: x.lock(); break; case 1: if (!x.try_lock()) mc::fail("dummy_mutex::try_lock fails"); break; case 2: x.unlock(); break; } } if (mc::locks_held()) mc::fail("dummy_mutex takes a lock"); }
static Reg r4("dummy", dummy_body);
static dummy_mutex* dm;
static Reg r5("dummyc", [](const Vec&) { dm = new dummy_mutex; }, 2, [](const Vec& v, int i) { for (int q = 0; q < 2; ++q) { int o = v[i * 2 + q]; if (o == 0) dm->lock(); else if (o == 1) { if (!dm->try_lock()) mc::fail("dummy_mutex::try_lock fails"); } else dm->unlock(); } }, [](const Vec&) { delete dm; });
// one thread, any valid sequence on two mutexes: state of each is known
static void single_body(const Vec& v) { mutex x[2]; bool h[2] = {false, false}; for (int o : v) { int k = o & 1; switch (o >> 1) { case 0: if (!h[k]) { x[k].lock(); h[k] = true; } break; case 1: { bool r = x[k].try_lock(); if (r == h[k]) mc::fail("try_lock returns %d on a %s mutex", r, h[k] ? "held" : "free"); h[k] = true; } break; case 2: if (h[k]) { x[k].unlock(); h[k] = false; } break; } if (mc::locks_held() != h[0] + h[1]) mc::fail("%d mutexes are held instead of %d", mc::locks_held(), h[0] + h[1]); } for (int k = 0; k < 2; ++k) if (h[k]) x[k].unlock(); }
static Reg r6("single", single_body);
static void families(const std::string&, bool th) {
  unit_oracle = oracle;
  sequences(6, th ? 9 : 7, [&](const Vec& s) { run_case("dummy", s); run_case("single", s); });
  product({3, 3, 3, 3}, [&](const Vec& v) { run_case("dummyc", v); });
  // two threads: up to 3 (second thread: 2) operations each
  product({NOP, NOP, NOP, NOP, NOP, th ? (int)NOP : 1}, [&](const Vec& v) { if ((!v[1] && v[2]) || !v[0] || !v[3] || (!v[4] && v[5])) return; if (!th && v[2] && v[4] && (v[2] > CROSSTRY || v[4] > CROSSTRY)) return; run_case("mutex2", v); });
  product({NOP, NOP, NOP, NOP}, [&](const Vec& v) { if (!v[0] || !v[2] || !v[3]) return; if (!th && v[1] && v[1] > CROSSTRY) return; Vec w = {v[0], v[1], 0, v[2], 0, 0, v[3], 0, 0}; run_case("mutex3", w); });
}
