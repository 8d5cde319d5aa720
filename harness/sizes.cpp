// C25 and C13g: element counts well beyond every internal buffer, and cycles repeated many times.
#define UNIT_STEPS 2000000000
#include "unit.h"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
using namespace boost::signals2;
static const int ALIVE = 0x600d;
struct Last { typedef int result_type; template <class It> int operator()(It f, It l) const { int r = -1; for (; f != l; ++f) r = *f; return r; } };
typedef signal<int(int), Last> Sig;
static int MX, OB; static int *live, *calls;      // slot functions and, from OB on, tracked objects of the large programs
static std::vector<int>* order; static Sig* probe;      // probe: a dying slot function uses the signal
static std::function<void(int)>* hook;
static int ninst;
struct Tok { int id, magic, run; explicit Tok(int i): id(i), magic(ALIVE), run(0) { ++live[id]; ++ninst; }
  ~Tok() { if (magic != ALIVE) mc::fail("a slot function is destroyed twice"); magic = 0; --live[id]; --ninst; if (run) mc::fail("a slot function is destroyed while it runs"); if (probe) probe->num_slots(); } };
struct Fn { boost::shared_ptr<Tok> t; explicit Fn(int i): t(new Tok(i)) {}
  int operator()(int a) const { if (t->magic != ALIVE) mc::fail("a slot runs on a destroyed function"); int id = t->id; struct In { int& n; explicit In(int& n): n(n) { ++n; } ~In() { --n; } } in(t->run); ++calls[id]; order->push_back(id); if (hook && *hook) { std::function<void(int)> h = *hook; h(id); } return a + id; } };
struct Xfn { Fn f; explicit Xfn(int i): f(i) {} int operator()(const connection& c, int a) const { if (!c.connected()) mc::fail("an extended slot's connection is not connected"); int r = f(a); return r; } };
struct Obj { int k, magic; explicit Obj(int k): k(k), magic(ALIVE) { ++live[k]; } ~Obj() { if (magic != ALIVE) mc::fail("a tracked object is destroyed twice"); magic = 0; --live[k]; } };
struct Env { std::vector<int> o; std::function<void(int)> h; std::vector<int> lv, cv;
  explicit Env(int n): lv(n), cv(n) { MX = n; OB = n / 2; live = lv.data(); calls = cv.data(); order = &o; hook = &h; probe = 0; ninst = 0; } ~Env() { order = 0; hook = 0; probe = 0; } };
static void same(const std::vector<int>& got, const std::vector<int>& want, const char* what) {
  if (got == want) return; std::string s = what; s += ": called"; for (int x : got) s += " " + std::to_string(x); s += " instead of"; for (int x : want) s += " " + std::to_string(x); mc::fail("%s", s.c_str()); }
static void emit_is(Sig& s, const std::vector<int>& want, const char* what) { order->clear(); int r = s(1000); same(*order, want, what); if (r != (want.empty() ? -1 : 1000 + want.back())) mc::fail("%s: wrong result", what); }
// ---- reference order: front, groups ascending, back
struct Ref { struct E { int key, id; }; std::vector<E> l;      // key: -1 front, 0..: group, 9999 back
  void add(int g, bool front, int id) { int key = g < 0 ? (front ? -1 : 9999) : g; size_t i = 0; if (front) while (i < l.size() && l[i].key < key) ++i; else while (i < l.size() && l[i].key <= key) ++i; l.insert(l.begin() + i, E{key, id}); }
  void del(int id) { for (size_t i = 0; i < l.size(); ++i) if (l[i].id == id) { l.erase(l.begin() + i); return; } }
  std::vector<int> ids() const { std::vector<int> r; for (auto& e : l) r.push_back(e.id); return r; } };
static void place(int pat, int i, int n, int& g, bool& front) {
  switch (pat) { case 0: g = -1; front = false; break; case 1: g = -1; front = true; break; case 2: g = 5; front = false; break; case 3: g = 5; front = true; break; case 4: g = i; front = i & 1; break; case 5: g = n - i; front = false; break;
    case 6: g = i % 3 - 1; front = i % 5 == 0; break; case 7: g = (i * 7) % 11; front = i & 1; break; default: g = i < n / 2 ? 3 : -1; front = i % 2; break; } }
enum { NPLACE = 9 };
static bool gone_pat(int pat, int i, int n) { switch (pat) { case 0: return false; case 1: return true; case 2: return i & 1; case 3: return i < n / 2; case 4: return i >= n / 2; case 5: return i == 0; case 6: return i == n - 1; case 7: return i % 3 != 0; case 8: return i != 0 && i != n - 1; default: return i == n / 2; } }
enum { NGONE = 10 };
// v: n, placement, which go, how they go (0 disconnect, 1 tracked object expires, 2 from within an emission, 3 blocked and released, 4 scoped, 5 blocked then expired,
//    6 tracked object expires during an emission, 7 the same and a slot is connected), m slots added afterwards
static void slots_body(const Vec& v) {
  Env e(2 * (v[0] + v[4] + 1)); int n = v[0], pp = v[1], gp = v[2], how = v[3], m = v[4];
  Sig* s = new Sig; Ref r; std::vector<connection> k; std::vector<boost::shared_ptr<Obj> > own; std::vector<shared_connection_block> bl;
  probe = s;
  for (int i = 0; i < n; ++i) { int g; bool f; place(pp, i, n, g, f); own.push_back(boost::shared_ptr<Obj>(new Obj(OB + i))); Sig::slot_type sl((Fn(i))); if (how == 1 || how == 5 || how >= 6) sl.track(own.back()); connect_position at = f ? at_front : at_back; k.push_back(g < 0 ? s->connect(sl, at) : s->connect(g, sl, at)); r.add(g, f, i); }
  if ((int)s->num_slots() != n || s->empty() != (n == 0)) mc::fail("num_slots is %zu instead of %d", s->num_slots(), n);
  emit_is(*s, r.ids(), "first emission");
  Ref before = r; std::vector<bool> gone(n);
  std::vector<scoped_connection> sc(n);
  auto go = [&](int i) { if (how == 0 || how == 2) k[i].disconnect(); else if (how == 4) { scoped_connection c(k[i]); } else { own[i].reset(); if (live[OB + i]) mc::fail("a tracked object is kept alive"); } };
  for (int i = 0; i < n; ++i) if (gone_pat(gp, i, n)) { gone[i] = true; r.del(i); }
  if (how == 3 || how == 5) for (int i = 0; i < n; ++i) if (gone[i]) bl.push_back(shared_connection_block(k[i]));
  if (how == 2 || how >= 6) {      // the first slot called makes them go; it completes itself
    bool done = false; connection k7; e.h = [&](int id) { if (done) return; done = true; for (int i = 0; i < n; ++i) if (gone[i]) { if (how >= 6) own[i].reset(); else go(i); } if (how == 7) { k7 = s->connect(Fn(n + m)); for (int i = 0; i < n; ++i) if (gone[i] && id != i && live[OB + i]) mc::fail("a tracked object is kept alive"); } };
    std::vector<int> want; std::vector<int> b = before.ids(); for (size_t q = 0; q < b.size(); ++q) if (!q || !gone[b[q]]) want.push_back(b[q]);
    order->clear(); (*s)(1000); same(*order, want, "emission during which slots go"); e.h = nullptr;
    for (int i = 0; i < n; ++i) if (gone[i] && how >= 6 && live[OB + i]) mc::fail("a tracked object survives the emission"); if (done && how == 7) { if (!k7.connected()) mc::fail("a slot connected during the emission"); r.add(-1, false, n + m); }
  } else if (how != 3) for (int i = 0; i < n; ++i) if (gone[i]) go(i);
  for (int i = 0; i < n; ++i) if (k[i].connected() != (how == 3 || !gone[i])) mc::fail("connected() of connection %d", i);
  if (how == 0 || how == 2 || how == 4) for (int i = 0; i < n; ++i) if (live[i] != !gone[i]) mc::fail("slot function %d is %s", i, live[i] ? "kept" : "gone");
  emit_is(*s, r.ids(), "emission after slots went");
  if (how == 1 || how >= 5) for (int i = 0; i < n; ++i) if (live[i] != !gone[i]) mc::fail("slot function %d is %s", i, live[i] ? "kept" : "gone");
  if (how == 3) { bl.clear(); r = before; emit_is(*s, r.ids(), "emission after blocks were released"); }
  for (int j = 0; j < m; ++j) { int g; bool f; place(pp, j, n, g, f); Fn fn(n + j); connection c = g < 0 ? s->connect(fn, f ? at_front : at_back) : s->connect(g, fn, f ? at_front : at_back); r.add(g, f, n + j); k.push_back(c); }
  emit_is(*s, r.ids(), "emission after new slots");
  if (s->num_slots() != r.l.size()) mc::fail("num_slots is %zu instead of %zu", s->num_slots(), r.l.size());
  if (v.size() > 5) { if (v[5] == 1) { s->disconnect_all_slots(); r.l.clear(); } else { s->disconnect(5); std::vector<Ref::E> q; for (auto& x : r.l) if (x.key != 5) q.push_back(x); r.l = q; }
    if (s->num_slots() != r.l.size()) mc::fail("num_slots after disconnecting is %zu instead of %zu", s->num_slots(), r.l.size()); emit_is(*s, r.ids(), "emission after disconnecting"); std::vector<bool> in(n + m + 1); for (int x : r.ids()) in[x] = true; for (int i = 0; i < n + m; ++i) if (live[i] != in[i]) mc::fail("slot function %d", i); }
  probe = 0; delete s; for (int i = 0; i <= n + m; ++i) if (live[i]) mc::fail("slot function %d survives the signal", i); for (auto& c : k) if (c.connected()) mc::fail("connected() after the signal is gone");
}
static Reg r1("slots", slots_body);
// ---- n tracked objects. v: n, tracked by the other slot, kinds (0 boost 1 std 2 mixed 3 slots 4 weak), expired one (-1 none), moment (0 before, 1 by an earlier slot, 2 all dropped by the slot itself, 3 dropped and the slot disconnects itself, 4 nested emission), extended
static void tracked_body(const Vec& v) {
  Env e(v[0] + v[1] + 16); int n = v[0], m = v[1], kind = v[2], ex = v[3], mo = v[4]; Sig* s = new Sig; std::vector<boost::shared_ptr<Obj> > own; std::vector<std::shared_ptr<Obj> > fown; connection k[2]; bool ran = false;
  for (int i = 0; i < n + m; ++i) { bool std_ = kind == 1 || (kind == 2 && i % 3 == 1); own.push_back(boost::shared_ptr<Obj>()); fown.push_back(std::shared_ptr<Obj>()); if (std_) fown[i] = std::shared_ptr<Obj>(new Obj(10 + i)); else own[i] = boost::shared_ptr<Obj>(new Obj(10 + i)); }
  auto alive = [&](int a, int b) { int c = 0; for (int i = a; i < b; ++i) c += live[10 + i]; return c; };
  for (int q = 0; q < 2; ++q) {
    int a = q ? n : 0, b = q ? n + m : n; Sig::slot_type sl((Fn(q))); Sig::extended_slot_type xl((Xfn(q)));
    for (int i = a; i < b; ++i) { bool std_ = kind == 1 || (kind == 2 && i % 3 == 1);
      auto tr = [&](auto& x) { if (kind == 3 || (kind == 2 && i % 3 == 2)) { signal<void()>::slot_type t([] {}); t.track(own[i]); x.track(t); } else if (std_) x.track_foreign(std::weak_ptr<Obj>(fown[i])); else if (kind == 4) x.track(boost::weak_ptr<Obj>(own[i])); else x.track(own[i]); };
      tr(sl); tr(xl); }
    k[q] = v[5] ? s->connect_extended(xl) : s->connect(sl);
  }
  bool first = true;
  if (ex >= 0 && mo == 0) { own[ex].reset(); fown[ex].reset(); if (live[10 + ex]) mc::fail("tracking keeps an object alive"); }
  e.h = [&](int id) {
    int a = id ? n : 0, b = id ? n + m : n; 
    if (alive(a, b) != b - a) mc::fail("a slot runs with %d of its %d tracked objects", alive(a, b), b - a);
    if (id == 0) { ran = true;
      if (mo == 1 && ex >= n && first) { own[ex].reset(); fown[ex].reset(); if (live[10 + ex]) mc::fail("the tracked object of another slot is kept alive"); }
      if (mo == 2 || mo == 3) { for (auto& p : own) p.reset(); for (auto& p : fown) p.reset(); if (mo == 3) k[0].disconnect(); if (alive(0, n) != n) mc::fail("tracked objects die while the slot runs"); if (alive(n, n + m)) mc::fail("tracked objects of another slot are kept alive"); }
      if (mo == 4 && first) { first = false; (*s)(5); if (alive(0, n) != n) mc::fail("tracked objects die while the slot runs"); } }
    first = false; };
  std::vector<int> want; bool e0 = ex >= 0 && ex < n && mo == 0, e1 = ex >= n && (mo == 0 || mo == 1);
  if (mo == 4) { if (!e0) want.push_back(0); if (!e0) { want.push_back(0); if (!e1) want.push_back(1); } if (!e1) want.push_back(1); }
  else { if (!e0) want.push_back(0); if (!(e1 || ((mo == 2 || mo == 3) && m > 0))) want.push_back(1); }
  if (mo == 1 && ex >= 0 && ex < n) return (void)delete s;
  order->clear(); (*s)(1000); same(*order, want, "emission");
  bool d0 = (mo == 2 && n > 0) || mo == 3 || e0, d1 = ((mo == 2 || mo == 3) && m > 0) || e1;
  if (mo == 2 || mo == 3) if (alive(0, n + m)) mc::fail("tracked objects survive the emission");
  if (k[0].connected() == d0 || k[1].connected() == d1) mc::fail("connected() is %d %d", k[0].connected(), k[1].connected());
  if ((int)s->num_slots() != !d0 + !d1) mc::fail("num_slots");
  first = false; int mo0 = mo; mo = 9; order->clear(); (*s)(1); want.clear(); if (!d0) want.push_back(0); if (!d1) want.push_back(1); same(*order, want, "second emission"); (void)mo0;
  for (auto& p : own) p.reset(); for (auto& p : fown) p.reset(); if (alive(0, n + m)) mc::fail("tracked objects are kept alive by the signal");
  emit_is(*s, n == 0 && !d0 ? (m == 0 && !d1 ? std::vector<int>{0, 1} : std::vector<int>{0}) : (m == 0 && !d1 ? std::vector<int>{1} : std::vector<int>()), "emission without the tracked objects");
  delete s; if (live[0] || live[1]) mc::fail("slot functions survive the signal");
}
static Reg r2("tracked", tracked_body);
// ---- nested emissions. v: depth, slots, what the innermost does, at which slot the recursion happens
static void nest_body(const Vec& v) {
  Env e(v[1] + 8); int depth = v[0], n = v[1], what = v[2], at = v[3]; Sig* s = new Sig; std::vector<connection> k; probe = s;
  for (int i = 0; i < n; ++i) k.push_back(s->connect(what == 6 ? i % 3 : 1, Fn(i)));
  int d = 0; bool acted = false; std::vector<int> want; std::vector<bool> con(n, true); std::vector<int> fresh;
  e.h = [&](int id) { if (id != at) return; if (d < depth) { ++d; (*s)(1); --d; }
    else if (!acted) { acted = true;
      if (what == 1) k[n - 1].disconnect(); if (what == 2) s->disconnect_all_slots(); if (what == 3) k[at].disconnect(); if (what == 4) { k.push_back(s->connect(1, Fn(n))); } if (what == 5) { for (int i = 0; i < n; ++i) if (i != at) k[i].disconnect(); } } };
  // reference: every level walks the n slots as of its start; a slot is called if it is still connected when it is reached
  int rd = 0; bool ra = false; std::function<void()> walk = [&] { for (int i = 0; i < n; ++i) { if (!con[i]) continue; want.push_back(i); if (i == at) { if (rd < depth) { ++rd; walk(); --rd; } else if (!ra) { ra = true; if (what == 1) con[n - 1] = false; if (what == 2) con.assign(n, false); if (what == 3) con[at] = false; if (what == 5) for (int q = 0; q < n; ++q) if (q != at) con[q] = false; } } } };
  if (what == 6) { return (void)(probe = 0, delete s); }
  walk(); order->clear(); (*s)(1); same(*order, want, "nested emissions");
  for (int i = 0; i < n; ++i) { if (k[i].connected() != con[i]) mc::fail("connected() of slot %d", i); if (live[i] != con[i]) mc::fail("slot function %d is %s", i, live[i] ? "kept" : "gone"); }
  e.h = nullptr; want.clear(); for (int i = 0; i < n; ++i) if (con[i]) want.push_back(i); if (what == 4 && at < n) want.push_back(n); emit_is(*s, want, "emission after nested emissions");
  probe = 0; delete s; for (int i = 0; i <= n; ++i) if (live[i]) mc::fail("slot function %d survives the signal", i);
}
static Reg r3("nest", nest_body);
// ---- n blocks on one connection, released in an order. v: n, order, slots
static void blocks_body(const Vec& v) {
  Env e(v[2] + 8); int n = v[0]; Sig s; std::vector<connection> k; for (int i = 0; i < v[2]; ++i) k.push_back(s.connect(Fn(i))); int at = v[2] / 2; std::vector<int> all, but; for (int i = 0; i < v[2]; ++i) { all.push_back(i); if (i != at) but.push_back(i); }
  { std::vector<shared_connection_block> b; b.reserve(n); for (int i = 0; i < n; ++i) { if (v[1] & 1 && i) b.push_back(b[i - 1]); else b.push_back(shared_connection_block(k[at])); }
    for (int j = 0; j < n; ++j) { if (!k[at].blocked()) mc::fail("blocked() is false with %d blocks", n - j); emit_is(s, but, "emission while blocked"); int i = v[1] < 2 ? j : v[1] < 4 ? n - 1 - j : (j * 7 + 3) % n; if (v[1] >= 4 && n % 7 == 0) i = j; b[i].unblock(); if (b[i].blocking()) mc::fail("blocking() after unblock()"); }
    if (k[at].blocked()) mc::fail("blocked() is true without a block"); emit_is(s, all, "emission after the blocks"); }
}
static Reg r4("blocks", blocks_body);
// ---- a chain of signals, a fan of signals. v: length, fan, which dies
static void chain_body(const Vec& v) {
  Env e(v[0] + 8); int n = v[0], fan = v[1], die = v[2]; std::vector<std::unique_ptr<Sig> > s; for (int i = 0; i <= n; ++i) s.emplace_back(new Sig); std::vector<connection> k;
  for (int i = 0; i < n; ++i) { k.push_back(s[i]->connect(*s[i + 1])); for (int f = 0; f < fan; ++f) s[i + 1]->connect(Fn(i)); }
  auto expect = [&](int upto) { std::vector<int> w; for (int i = n - 1; i >= 0; --i) if (i < upto) for (int f = 0; f < fan; ++f) w.push_back(i); return w; };
  order->clear(); (*s[0])(1); std::vector<int> w = expect(n);   // the connection to the next signal was made after or before the slots
  std::vector<int> got = *order; std::sort(got.begin(), got.end()); std::vector<int> ws = w; std::sort(ws.begin(), ws.end()); same(got, ws, "chain");
  if (die >= 1 && die <= n) { s[die].reset(); if (k[die - 1].connected()) mc::fail("connected to a dead signal"); order->clear(); (*s[0])(1); got = *order; std::sort(got.begin(), got.end()); ws = expect(die - 1); std::sort(ws.begin(), ws.end()); same(got, ws, "chain after a signal died"); if ((int)s[die - 1]->num_slots() != (die > 1 ? fan : 0)) mc::fail("num_slots"); }
}
static Reg r5("chain", chain_body);
// ---- n disconnected entries, then every way of making the library clean up. v: n dead, n live, interleaving, operation sequence...
static void cleanup_body(const Vec& v) {
  Env e(v[0] + v[1] + 64); int nd = v[0], nl = v[1], pat = v[2]; Sig* s = new Sig; probe = s; Ref r; std::vector<connection> k; int n = nd + nl, dead = 0; std::vector<bool> kill(n);
  for (int i = 0; i < n; ++i) { bool d = pat == 0 ? i < nd : pat == 1 ? i >= nl : pat == 2 ? (i * nd / (n ? n : 1)) != ((i + 1) * nd / (n ? n : 1)) : i % 2 == 0 && dead < nd; if (pat == 3 && n - i <= nd - dead) d = true; kill[i] = d; dead += d; int g = pat == 3 ? i % 4 - 1 : -1; connection c = g < 0 ? s->connect(Fn(i)) : s->connect(g, Fn(i)); k.push_back(c); r.add(g, false, i); }
  for (int i = 0; i < n; ++i) if (kill[i]) { k[i].disconnect(); r.del(i); if (live[i]) mc::fail("a disconnected slot function is kept"); }
  int id = n;
  for (size_t q = 3; q < v.size(); ++q) switch (v[q]) {
    case 0: emit_is(*s, r.ids(), "emission"); break; case 1: s->connect(Fn(id)); r.add(-1, false, id++); break; case 2: s->connect(1, Fn(id), at_front); r.add(1, true, id++); break;
    case 3: if (s->num_slots() != r.l.size()) mc::fail("num_slots"); break; case 4: s->disconnect(1); { std::vector<Ref::E> l; for (auto& x : r.l) if (x.key != 1) l.push_back(x); r.l = l; } break;
    case 5: s->connect(Fn(id), at_front); r.add(-1, true, id++); break; case 6: { Sig t; std::swap(*s, t); std::swap(*s, t); } break; case 7: if (!r.l.empty()) { int x = r.l.front().id; if (x < (int)k.size()) { k[x].disconnect(); r.del(x); } } break;
    case 8: { bool done = false; e.h = [&](int) { if (!done) { done = true; s->connect(2, Fn(id)); } }; bool any = !r.l.empty(); emit_is(*s, r.ids(), "emission with a connect"); e.h = nullptr; if (any) r.add(2, false, id++); } break; }
  emit_is(*s, r.ids(), "last emission"); if (s->num_slots() != r.l.size()) mc::fail("num_slots");
  std::vector<int> lv(id, 0); for (int x : r.ids()) lv[x] = 1; for (int i = 0; i < id; ++i) if (live[i] != lv[i]) mc::fail("slot function %d is %s", i, live[i] ? "kept" : "gone");
  probe = 0; delete s; for (int i = 0; i < id; ++i) if (live[i]) mc::fail("slot function %d survives the signal", i);
}
static Reg r6("cleanup", cleanup_body);
// ---- C13g: a balanced cycle repeated. v: base slots, inside an emission, cycle...
enum Cy { Y_CON, Y_FRONT, Y_G1, Y_G1F, Y_G2, Y_DOLD, Y_DNEW, Y_EMIT, Y_NUM, Y_EXPIRE, Y_SCOPED, Y_DG1, Y_BLOCK, Y_SWAPK, Y_EMITDISC, Y_SETC, NCY };
static void grow_body(const Vec& v) {
  Env e(256); Sig s; int base = v[0], inside = v[1]; for (int i = 0; i < base; ++i) s.connect(i % 3 ? 1 : 2, Fn(i)); 
  std::vector<connection> k; k.reserve(16); e.o.reserve(4096); size_t peak[2] = {0, 0}; const int R = 64; int pinst[2] = {0, 0};
  auto cycle = [&](int rep) {
    for (size_t q = 2; q < v.size(); ++q) switch (v[q]) {
      case Y_CON: k.push_back(s.connect(Fn(100))); break; case Y_FRONT: k.push_back(s.connect(Fn(100), at_front)); break; case Y_G1: k.push_back(s.connect(1, Fn(100))); break; case Y_G1F: k.push_back(s.connect(1, Fn(100), at_front)); break; case Y_G2: k.push_back(s.connect(3, Fn(100))); break;
      case Y_DOLD: if (!k.empty()) { k.front().disconnect(); k.erase(k.begin()); } break; case Y_DNEW: if (!k.empty()) { k.back().disconnect(); k.pop_back(); } break;
      case Y_EMIT: e.o.clear(); s(1); break; case Y_NUM: s.num_slots(); break; case Y_EXPIRE: { boost::shared_ptr<Obj> o(new Obj(120)); s.connect(Sig::slot_type(Fn(101)).track(o)); } break;
      case Y_SCOPED: { scoped_connection c(s.connect(2, Fn(102))); } break; case Y_DG1: if (base == 0) s.disconnect(1); break; case Y_BLOCK: if (!k.empty()) { shared_connection_block b(k.back()); s(1); } break; case Y_SWAPK: { Sig t; t.swap(s); t.connect(Fn(103)).disconnect(); s.swap(t); } break;
      case Y_EMITDISC: { e.o.clear(); if (!k.empty()) { connection c = k.back(); bool was = false; std::function<void(int)> old = e.h; e.h = [&](int) { if (!was) { was = true; c.disconnect(); } }; s(1); e.h = old; } } break; case Y_SETC: s.set_combiner(Last()); break; }
    for (auto& c : k) c.disconnect(); k.clear(); e.o.clear();
    size_t b = mc::live_blocks(); size_t& p = peak[rep >= R / 2]; if (b > p) p = b; int& pi = pinst[rep >= R / 2]; if (ninst > pi) pi = ninst;
  };
  if (inside) { connection c0 = s.connect(0, Fn(99), at_front); bool once = false; e.h = [&](int id) { if (id != 99 || once) return; once = true; for (int r = 0; r < R; ++r) cycle(r); }; s(1); if (!once) mc::fail("not called"); e.h = nullptr; }
  else for (int r = 0; r < R; ++r) cycle(r);
  // the incremental clean-up may lag behind, but not by an amount that grows with the number of repetitions
  if (peak[1] > peak[0] + 12) mc::fail("repeating a balanced cycle grows memory: up to %zu blocks in the first %d repetitions, up to %zu in the next", peak[0], R / 2, peak[1]);
  if (pinst[1] > pinst[0] + 3) mc::fail("repeating a balanced cycle keeps more slot functions: up to %d, then %d", pinst[0], pinst[1]);
}
static Reg r7("grow", grow_body);
// ---- counts beyond what an 8 or 16 bit number holds. v: what, how many
static void huge_body(const Vec& v) {
  const int n = v[1]; long sum = 0; int last = -1; bool sorted = true; Sig s;
  struct F { long* sum; int* last; bool* sorted; int id; int operator()(int a) const { *sum += id; if (id <= *last) *sorted = false; *last = id; return a + id; } };
  auto fn = [&](int id) { return F{&sum, &last, &sorted, id}; };
  auto emit = [&](long want, int lastid) { sum = 0; last = -1; sorted = true; int r = s(7); if (sum != want || !sorted || last != lastid || r != (lastid < 0 ? -1 : 7 + lastid)) mc::fail("an emission calls the wrong slots: sum %ld instead of %ld, last %d instead of %d%s", sum, want, last, lastid, sorted ? "" : ", wrong order"); };
  auto num = [&](size_t w) { if (s.num_slots() != w || s.empty() != (w == 0)) mc::fail("num_slots is %zu instead of %zu", s.num_slots(), w); };
  switch (v[0]) {
    case 0: case 1: case 2: {      // slots: at the back, in groups of their own, all in one group; every second one goes
      std::vector<connection> k; k.reserve(n); long all = 0, odd = 0; for (int i = 0; i < n; ++i) { k.push_back(v[0] == 0 ? s.connect(fn(i)) : s.connect(v[0] == 1 ? i : 3, fn(i))); all += i; if (i & 1) odd += i; }
      num(n); emit(all, n - 1); int lo = (n - 1) & 1 ? n - 1 : n - 2; for (int i = 0; i < n; i += 2) k[i].disconnect(); num(n / 2); emit(odd, lo); num(n / 2); for (int i = 0; i < n; ++i) if (k[i].connected() != (i & 1)) mc::fail("connected() of slot %d", i);
      k.push_back(v[0] == 0 ? s.connect(fn(n)) : s.connect(v[0] == 1 ? n : 3, fn(n))); emit(odd + n, n); if (v[0]) { s.disconnect(3); bool all = v[0] == 2; num(all ? 0 : n / 2); emit(all ? 0 : odd + n - 3, all ? -1 : n); } s.disconnect_all_slots(); num(0); emit(0, -1); break; }
    case 3: { connection a = s.connect(fn(0)), b = s.connect(fn(1)); for (int i = 0; i < n; ++i) emit(1, 1); a.disconnect(); for (int i = 0; i < n; ++i) emit(1, 1); if (b.blocked() || !b.connected()) mc::fail("connection"); break; }      // emissions
    case 4: { connection a = s.connect(fn(0)), b = s.connect(fn(1)); { std::vector<shared_connection_block> bl; bl.reserve(n); for (int i = 0; i < n; ++i) { if (i & 1) bl.push_back(bl.back()); else bl.push_back(shared_connection_block(b)); } emit(0, 0);
      while (bl.size() > 1) { bl.pop_back(); if (!b.blocked()) mc::fail("blocked() is false with %zu blocks", bl.size()); } emit(0, 0); } if (b.blocked()) mc::fail("blocked() without a block"); emit(1, 1); break; }
    case 5: { boost::shared_ptr<int> o(new int(1)), p(new int(2)); Sig::slot_type sl(fn(5)); for (int i = 0; i < n; ++i) sl.track(i & 1 ? boost::weak_ptr<int>(o) : boost::weak_ptr<int>(p)); connection c = s.connect(sl), d = s.connect(Sig::slot_type(sl)), f = s.connect(fn(6)); sum = 0; s(1); if (sum != 16) mc::fail("slots tracking many objects are not called"); o.reset(); if (c.connected() || d.connected() || p.use_count() != 1) mc::fail("connected() after expiry"); num(1); emit(6, 6); break; }
    case 6: { connection keep = s.connect(1, fn(0)); for (int i = 0; i < n; ++i) { connection c = i & 1 ? s.connect(fn(2)) : s.connect(1, fn(2)); num(2); c.disconnect(); num(1); } emit(0, 0); break; }      // connects and disconnects
    case 7: { connection c = s.connect(fn(1)); std::vector<connection> k(n, c); if (k.back() != c || !k.front().connected()) mc::fail("copies of a connection"); k[n / 2].disconnect(); if (c.connected() || k.back().connected()) mc::fail("connected()"); emit(0, -1); break; }
    case 8: { s.connect(fn(1)); Sig t; t.connect(s); struct Deep { Sig* s; int* left; int operator()(int a) const { if (*left > 0) { --*left; return (*s)(a); } return a; } }; for (int i = 0; i < n; ++i) { s.set_combiner(Last()); if (i % 16 == 0) { sum = 0; last = -1; t(1); if (sum != 1) mc::fail("emission through a signal"); } } emit(1, 1); break; }      // combiners
    case 9: { connection a = s.connect(fn(0)), b = s.connect(fn(1)); for (int i = 0; i < n; ++i) { shared_connection_block x(b); if (!b.blocked()) mc::fail("blocked()"); x.unblock(); if (b.blocked()) mc::fail("blocked()"); x.block(); } emit(1, 1); break; }      // blocks one after the other
    case 10: { Sig t; s.connect(fn(1)); for (int i = 0; i < n; ++i) { s.swap(t); if (i & 1) emit(1, 1); else emit(0, -1); } break; }
  }
}
static Reg r8("huge", huge_body);
// ---- n slots, one throws. v: n, placement, which throws, which are gone or blocked before, by (0 disconnect, 1 block, 2 disconnected by the slot that throws), nested
static void throw_body(const Vec& v) {
  int n = v[0], at = v[2], gp = v[3], by = v[4]; Env e(n + 8); Sig* s = new Sig; Ref r; std::vector<connection> k; std::vector<shared_connection_block> bl; probe = s; struct Oops { int id; };
  for (int i = 0; i < n; ++i) { int g; bool f; place(v[1], i, n, g, f); connect_position p = f ? at_front : at_back; k.push_back(g < 0 ? s->connect(Fn(i), p) : s->connect(g, Fn(i), p)); r.add(g, f, i); }
  Ref all = r; std::vector<bool> gone(n); auto make = [&] { for (int i = 0; i < n; ++i) if (i != at && gone_pat(gp, i, n)) { if (by == 1) bl.push_back(shared_connection_block(k[i])); else k[i].disconnect(); } };
  for (int i = 0; i < n; ++i) if (i != at && gone_pat(gp, i, n)) { gone[i] = true; r.del(i); } if (by != 2) { make(); all = r; }
  int lvl = 0; std::vector<int> want; for (int x : all.ids()) { want.push_back(x); if (x == at) break; }
  if (v[5]) { std::vector<int> in; for (int x : all.ids()) { in.push_back(x); if (x == at) break; } want = in; want.insert(want.end(), in.begin(), in.end()); }
  e.h = [&](int id) { if (id != at) return; if (v[5] && lvl == 0) { ++lvl; (*s)(1); return; } if (by == 2) make(); throw Oops{id}; };
  order->clear(); bool c = false; try { (*s)(1); } catch (const Oops& o) { c = o.id == at; } if (!c) mc::fail("the exception of a slot is not propagated"); same(*order, want, "emission that throws"); e.h = nullptr;
  for (int i = 0; i < n; ++i) { if (k[i].connected() != (!gone[i] || by == 1)) mc::fail("connected() of slot %d after an exception", i); if (by != 1 && live[i] == gone[i]) mc::fail("slot function %d is %s after an exception", i, live[i] ? "kept" : "gone"); }
  emit_is(*s, r.ids(), "emission after an exception"); s->connect(Fn(n)); r.add(-1, false, n); emit_is(*s, r.ids(), "emission after an exception and a connect"); if (s->num_slots() != r.l.size() + bl.size()) mc::fail("num_slots after an exception");
  bl.clear(); probe = 0; delete s; for (int i = 0; i <= n; ++i) if (live[i]) mc::fail("slot function %d survives the signal", i);
}
static Reg r9("throw", throw_body);
// ---- a slot object with n tracked objects. v: n, kind, which expires (-1 none), copied how
static void object_body(const Vec& v) {
  int n = v[0], kind = v[1], ex = v[2]; Env e(2 * n + 16); std::vector<boost::shared_ptr<Obj> > own(n); std::vector<std::shared_ptr<Obj> > fown(n); typedef Sig::slot_type S;
  auto alive = [&] { int c = 0; for (int i = 0; i < n; ++i) c += live[OB + i]; return c; };
  { S sl((Fn(0))); for (int i = 0; i < n; ++i) { int q = kind == 3 ? i % 3 : kind; if (q == 1) { fown[i] = std::shared_ptr<Obj>(new Obj(OB + i)); sl.track_foreign(fown[i]); } else { own[i] = boost::shared_ptr<Obj>(new Obj(OB + i)); if (q == 2) { signal<void()>::slot_type t([] {}); t.track(own[i]); sl.track(t); } else sl.track(own[i]); } }
    S other(sl), third((Fn(1))); if (v[3] == 1) { third = sl; } if (v[3] == 2) { std::swap(other, third); std::swap(sl, third); } S& u = v[3] == 0 ? sl : v[3] == 1 ? third : sl;
    if (v[3] == 2) { if (other(3) != 4) mc::fail("the slot without tracked objects"); }
    bool all = false; e.h = [&](int) { if (ex < 0) { for (auto& p : own) p.reset(); for (auto& p : fown) p.reset(); all = alive() == n; } };
    if (ex >= 0) { own[ex].reset(); fown[ex].reset(); if (live[OB + ex]) mc::fail("a slot object keeps a tracked object alive"); if (!u.expired()) mc::fail("expired() is false"); bool th = false; order->clear(); try { u(1); } catch (const expired_slot&) { th = true; } if (!th || !order->empty()) mc::fail("an expired slot is called"); th = false; try { u.lock(); } catch (const expired_slot&) { th = true; } if (!th) mc::fail("lock() of an expired slot"); }
    else { if (u.expired()) mc::fail("expired() is true"); { auto keep = u.lock(); std::vector<boost::shared_ptr<Obj> > o2 = own; std::vector<std::shared_ptr<Obj> > f2 = fown; o2.swap(own); f2.swap(fown); for (auto& p : own) p.reset(); for (auto& p : fown) p.reset(); own.assign(n, boost::shared_ptr<Obj>()); fown.assign(n, std::shared_ptr<Obj>()); o2.swap(own); f2.swap(fown); if (alive() != n) mc::fail("lock()"); }
      order->clear(); if (u(2) != 2 || order->size() != 1) mc::fail("a call of a slot object"); if (!all) mc::fail("tracked objects die while the slot runs"); if (alive()) mc::fail("tracked objects survive the call"); if (u.expired() != (n > 0)) mc::fail("expired() after the objects died"); } }
  own.clear(); fown.clear(); if (alive() || live[0] || live[1]) mc::fail("something is kept");
}
static Reg r10("object", object_body);
// ---- a combiner over n slots. v: n, what it does, which are gone, how (0 disconnected, 1 blocked, 2 expired)
struct Walk { typedef std::pair<int, long> result_type; int what; explicit Walk(int w): what(w) {}
  template <class It> result_type operator()(It f, It l) const { int c = 0; long sum = 0; switch (what) {
    case 0: for (; f != l; ++f, ++c) sum += *f; break; case 1: for (; f != l; ++f, ++c) { sum += *f; if (*f != *f) mc::fail("the result of a slot changes"); } break; case 2: for (; f != l; ++f, ++c) if (c & 1) sum += *f; break;
    case 3: for (; f != l && c < 5; ++f, ++c) sum += *f; break; case 4: for (; f != l; ++f) ++c; break; case 5: while (f != l) { sum += *f++; ++c; } break; case 6: for (; f != l; ++f, ++c) { It g(f); sum += *g; if (*f != *g) mc::fail("copies of an iterator differ"); } break; } return result_type(c, sum); } };
static void comb_body(const Vec& v) {
  int n = v[0], what = v[1], gp = v[2], how = v[3]; Env e(2 * n + 8); { signal<int(int), Walk> s((Walk(what))); std::vector<connection> k; std::vector<shared_connection_block> bl; std::vector<boost::shared_ptr<Obj> > own; int c = 0; long sum = 0; std::vector<int> want;
  for (int i = 0; i < n; ++i) { own.push_back(boost::shared_ptr<Obj>(new Obj(OB + i))); signal<int(int), Walk>::slot_type sl((Fn(i))); if (how == 2) sl.track(own[i]); k.push_back(s.connect(sl)); }
  for (int i = 0; i < n; ++i) if (gone_pat(gp, i, n)) { if (how == 0) k[i].disconnect(); else if (how == 1) bl.push_back(shared_connection_block(k[i])); else own[i].reset(); } else { if (what == 3 && c >= 5) continue; if (what == 4) { ++c; continue; } if (what != 2 || (c & 1)) { want.push_back(i); sum += 7 + i; } ++c; }
  for (int q = 0; q < 2; ++q) { order->clear(); std::pair<int, long> r = s(7); same(*order, want, "emission"); if (r.first != c || r.second != sum) mc::fail("the combiner sees %d results, sum %ld, instead of %d, %ld", r.first, r.second, c, sum); } }
  for (int i = 0; i < n; ++i) if (live[i] || live[OB + i]) mc::fail("slot function or object %d survives", i);
}
static Reg r11("comb", comb_body);
// which programs decide which property when they run for one property only
static bool sel(const std::string& p, const std::string& c, const Vec& v) {
  if (p == "C25") return true;
  auto has = [&](int o) { for (size_t i = 3; i < v.size(); ++i) if (v[i] == o) return true; return false; }; auto huge = [&](std::initializer_list<int> l) { for (int w : l) if (c == "huge" && v[0] == w) return true; return false; };
  bool sl = c == "slots"; int how = sl ? v[3] : -1;
  if (p == "S01") return (sl && how == 0 && v[2] < 3 && v.size() == 5) || huge({0, 1, 2});
  if (p == "S02") return (sl && how < 5 && how != 2 && v[1] % 2 == 0) || c == "cleanup" || huge({0, 2, 3});
  if (p == "S03") return c == "nest" || (sl && (how == 2 || how >= 6)) || (c == "cleanup" && has(8));
  if (p == "S04") return (sl && v.size() > 5) || (c == "cleanup" && has(4)) || huge({1, 2});
  if (p == "S05") return (sl && how < 2 && v.size() == 5) || huge({7});
  if (p == "S06") return sl && how == 4;
  if (p == "S07") return c == "blocks" || (sl && how == 3) || huge({4, 9});
  if (p == "S08") return c == "tracked" || (sl && (how == 1 || how > 4)) || huge({5});
  if (p == "S09") return c == "object"; if (p == "S10") return c == "comb"; if (p == "S12") return c == "throw";
  if (p == "S13") return (sl && how != 3 && how != 5 && v[1] % 2 == 1) || (c == "cleanup" && v[2] == 2) || huge({6});
  if (p == "S14") return (c == "cleanup" && has(6)) || huge({10});
  if (p == "S16") return (sl && (v.size() > 5 || (how >= 6 && (how == 7 || v[1] % 3 == 0)))) || (c == "cleanup" && has(4));
  if (p == "S20") return huge({8}); if (p == "S21") return c == "chain";
  return false;
}
static void families(const std::string& prof, bool th) {
  auto rc = [&](const char* c, const Vec& v) { if (sel(prof, c, v)) run_case(c, v); };
  if (prof == "C13g") {
    for (int base : {0, 1, 3, 6}) for (int in = 0; in < 2; ++in) sequences(NCY, th ? 5 : (base == 3) != (in == 1) && base % 3 == 0 && base < 6 ? 4 : 3, [&](const Vec& s) { if (s.empty()) return; Vec v = {base, in}; v.insert(v.end(), s.begin(), s.end()); run_case("grow", v); });
    return;
  }
  for (int w = 0; w <= 10; ++w) for (int n : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000}) rc("huge", {w, n});
  for (int w = 0; w <= 10; ++w) for (int n : {32767, 32768, 32769, 65535, 65536, 65537}) if ((th || n > 65535) && w != 1) rc("huge", {w, n});      // groups of their own: the engine keeps maps unbalanced
  const std::vector<int> big = {127, 128, 129, 255, 256, 257, 258, 300};
  for (int n : big) for (int p = 0; p < NPLACE; ++p) for (int g : {0, 1, 2, 4, 6}) for (int h = 0; h < 8; ++h) { if (!th && (n + p + g + h) % 5) continue; rc("slots", {n, p, g, h, 1}); if (th) for (int d = 1; d < 3; ++d) rc("slots", {n, p, g, h, 3, d}); }
  for (int n : big) for (int m : {0, n}) for (int kind = 0; kind < 5; ++kind) { for (int mo : {0, 2, 3, 4}) rc("tracked", {n, m, kind, -1, mo, (n + kind) & 1}); rc("tracked", {n, m, kind, n - 1, 0, n & 1}); rc("tracked", {n, m, kind, 0, 0, n & 1}); }
  for (int d : {50, 126, 127, 128, 254, 255, 256, 257, 300}) for (int n : {1, 2, 3}) for (int w = 0; w < 6; ++w) for (int at = 0; at < n; ++at) rc("nest", {d, n, w, at});
  for (int n : big) for (int o = 0; o < 5; ++o) for (int k : {1, 3}) rc("blocks", {n, o, k});
  for (int n : {40, 127, 128, 255, 256, 257}) for (int f : {0, 1}) for (int d : {0, 1, 2, n / 2, n - 1, n}) rc("chain", {n, f, d});
  for (int nd : {64, 127, 128, 129, 255, 256, 257, 258, 300}) for (int nl : {0, 1, 5, 127, 128, 256}) for (int p = 0; p < 4; ++p) sequences(9, th ? 2 : 1, [&](const Vec& s) { Vec v = {nd, nl, p}; v.insert(v.end(), s.begin(), s.end()); rc("cleanup", v); });
  int N = th ? 64 : 44; std::vector<int> some; for (int i = 0; i <= N; ++i) if (th || i < 4 || (i > 7 && i < 14) || i == 19 || i == 20 || i == 21 || i >= 40) some.push_back(i);
  for (int n = N + 1; n <= (th ? 180 : 90); ++n) for (int p = 0; p < NPLACE; ++p) for (int h = 0; h < 8; ++h) { if (!th && n > 50 && p != n % NPLACE) continue; rc("slots", {n, p, 1, h, n % 3}); rc("slots", {n, p, 2, h, 0}); }
  for (int n = 0; n <= N; ++n) for (int p = 0; p < NPLACE; ++p) for (int g = 0; g < NGONE; ++g) for (int h = 0; h < 8; ++h) for (int m : {0, 1, 3, 12}) { if (!th && m == 3 && n > 24) continue; rc("slots", {n, p, g, h, m}); }
  for (int n : some) for (int p = 0; p < NPLACE; ++p) for (int g : {0, 1, 2, 4}) for (int h = 0; h < 8; ++h) for (int d = 1; d < 3; ++d) rc("slots", {n, p, g, h, 3, d});
  int T = th ? 45 : 34;
  for (int n = 0; n <= T; ++n) for (int m : {0, 1, 5, 9, 10, 11, 12, 21, 33}) for (int kind = 0; kind < 5; ++kind) for (int x = 0; x < 2; ++x) for (int mo = 0; mo < 5; ++mo) {
    if (mo == 2 || mo == 3 || mo == 4) { rc("tracked", {n, m, kind, -1, mo, x}); if (mo < 4) continue; }
    for (int ex = mo == 1 ? n : 0; ex < n + m; ++ex) { bool edge = ex < 2 || (ex >= 8 && ex < 12) || (ex >= n - 1 && ex < n + 2) || ex == n + m - 1 || (ex >= n + 9 && ex < n + 11); if (th || edge) { if (mo == 4) continue; rc("tracked", {n, m, kind, ex, mo, x}); } } }
  for (int n = T + 1; n <= (th ? 180 : 90); ++n) for (int m : {0, 11, n}) for (int kind = 0; kind < 5; ++kind) for (int mo : {0, 2, 4}) { if (!th && n > 50 && m) continue; rc("tracked", {n, m, kind, -1, mo, (n + kind) & 1}); if (mo == 0) { rc("tracked", {n, m, kind, n - 1, 0, n & 1}); rc("tracked", {n, m, kind, 0, 0, n & 1}); } }
  for (int d = 0; d <= (th ? 40 : 26); ++d) for (int n : {1, 2, 5, 11, 12, 23}) for (int w = 0; w < 6; ++w) for (int at : {0, 1, n / 2, n - 1}) if (at < n) rc("nest", {d, n, w, at});
  for (int n = 0; n <= N; ++n) for (int o = 0; o < 5; ++o) for (int k : {1, 2, 12}) rc("blocks", {n, o, k});
  for (int n = 1; n <= (th ? 40 : 24); ++n) for (int f : {0, 1, 3, 11}) for (int d = 0; d <= n; ++d) rc("chain", {n, f, d});
  for (int nd = 0; nd <= (th ? 40 : 28); ++nd) for (int nl : {0, 1, 2, 5, 11, 25}) for (int p = 0; p < 4; ++p) sequences(9, th ? 3 : 2, [&](const Vec& s) { Vec v = {nd, nl, p}; v.insert(v.end(), s.begin(), s.end()); rc("cleanup", v); });
  std::vector<int> cnt; for (int i = 0; i <= (th ? 80 : 40); ++i) cnt.push_back(i); for (int b : big) cnt.push_back(b);
  for (int n : cnt) for (int p : {0, 1, 4, 6}) for (int gp = 0; gp < NGONE; ++gp) for (int by = gp ? 0 : 2; by < 3; ++by) for (int ne = 0; ne < 2; ++ne) for (int at : {0, 1, n / 2, n - 2, n - 1}) if (at >= 0 && at < n && (at > 1 || n < 4 || at == 0) && (th || n < 25 || (gp + n + by + at) % 4 == 0)) rc("throw", {n, p, at, gp, by, ne});
  for (int n : cnt) for (int kind = 0; kind < 4; ++kind) for (int cp = 0; cp < 3; ++cp) for (int ex = -1; ex < n; ++ex) if (ex < 2 || n < 25 || ex + 2 >= n || ex == n / 2) rc("object", {n, kind, ex, cp});
  for (int n : cnt) for (int w = 0; w < 7; ++w) for (int gp = 0; gp < NGONE; ++gp) for (int how = 0; how < 3; ++how) if (gp || how == 2) rc("comb", {n, w, gp, how});
}
