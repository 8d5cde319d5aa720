// C09: slot objects. Every sequence of operations on slot objects up to a depth against a reference model.
#include "unit.h"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
#include <optional>
#include <functional>
using namespace boost::signals2;
enum { NO = 6, NSL = 4 };                      // objects: 0,1 boost, 2 std, 3 trackable, 4 signal, 5 std; slots: 0,1 plain, 2 std::function, 3 other signature
typedef signal<int(int), last_value<int> > Sig;
typedef slot<int(int)> SlA; typedef slot<int(int), std::function<int(int)> > SlB; typedef slot<long(short)> SlC;
enum Code { MAKE, TRACK, TRSLOT, COPY, DROP, CALL, CALLDROP, CALLTHROW, LOCK, UNLOCK, CLEAR };
struct Op { int code, a, b; };
// ---------------------------------------------------------------- model
struct MS { bool ex = false; int fn = -1, kind = 0; std::vector<int> tr; };
struct M {
  MS s[NSL]; bool own[NO]; bool locked = false; std::vector<int> held; int nfn = 0;
  M() { for (auto& o : own) o = true; }
  bool alive(int o) const { if (own[o]) return true; if (o == 3) return false; for (int h : held) if (h == o) return true; return false; }
  bool expired(int i) const { for (int t : s[i].tr) if (!alive(t)) return true; return false; }
};
static std::vector<Op> ops() {
  std::vector<Op> r;
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) r.push_back({MAKE, i, k});
  for (int i = 0; i < 3; ++i) for (int o = 0; o < 7; ++o) if (o != 3) r.push_back({TRACK, i, o});     // 5: weak pointer to object 2, 6: object 5
  r.push_back({TRACK, 3, 0}); r.push_back({TRACK, 3, 2});
  for (auto p : {std::pair<int, int>{0, 1}, {1, 0}, {2, 0}, {0, 2}, {3, 1}, {1, 3}, {0, 0}}) r.push_back({TRSLOT, p.first, p.second});
  for (auto p : {std::pair<int, int>{0, 1}, {1, 0}, {2, 0}, {0, 2}, {3, 0}, {3, 2}, {0, 0}, {2, 2}, {1, 11}, {1, 10}}) r.push_back({COPY, p.first, p.second});   // 10+: via a copy-constructed temporary
  for (int o = 0; o < NO; ++o) r.push_back({DROP, o, 0});
  for (int i = 0; i < NSL; ++i) r.push_back({CALL, i, 0});
  for (int o = 0; o < NO; ++o) r.push_back({CALLDROP, 0, o});
  r.push_back({CALLDROP, 2, 0}); r.push_back({CALLTHROW, 0, 0}); r.push_back({CALLTHROW, 3, 0});
  r.push_back({LOCK, 0, 0}); r.push_back({LOCK, 2, 0}); r.push_back({LOCK, 3, 0}); r.push_back({UNLOCK, 0, 0}); r.push_back({CLEAR, 0, 0}); r.push_back({CLEAR, 1, 0});
  return r;
}
static const std::vector<Op>& OPS() { static const std::vector<Op> o = ops(); return o; }
static bool applicable(const M& m, const Op& o) {
  switch (o.code) {
    case MAKE: return o.b == 1 ? m.own[3] : o.b == 2 ? m.own[4] : true;
    case TRACK: return m.s[o.a].ex && m.s[o.a].tr.size() < 6 && (o.b == 4 ? m.own[4] : true) && (o.b != 3 || true);
    case TRSLOT: return m.s[o.a].ex && m.s[o.b].ex && m.s[o.a].tr.size() + m.s[o.b].tr.size() < 8;
    case COPY: return m.s[o.b % 10].ex;
    case DROP: return m.own[o.a];
    case CALL: case CALLTHROW: return m.s[o.a].ex;
    case CALLDROP: return m.s[o.a].ex && m.own[o.b] && !(o.b == 3 && m.s[o.a].kind == 1) && !(o.b == 4 && m.s[o.a].kind == 2 && false);
    case LOCK: return m.s[o.a].ex && !m.locked;
    case UNLOCK: return m.locked;
    case CLEAR: return m.s[o.a].ex;
  }
  return false;
}
static void model(M& m, const Op& o) {
  switch (o.code) {
    case MAKE: m.s[o.a] = MS(); m.s[o.a].ex = true; m.s[o.a].fn = m.nfn++; m.s[o.a].kind = o.b; if (o.b == 1) m.s[o.a].tr.push_back(3); if (o.b == 2) m.s[o.a].tr.push_back(4); break;
    case TRACK: m.s[o.a].tr.push_back(o.b == 5 ? 2 : o.b == 6 ? 5 : o.b); break;
    case TRSLOT: { auto t = m.s[o.b].tr; m.s[o.a].tr.insert(m.s[o.a].tr.end(), t.begin(), t.end()); break; }
    case COPY: { MS t = m.s[o.b % 10]; m.s[o.a] = t; break; }
    case DROP: m.own[o.a] = false; break;
    case CALLDROP: if (!m.expired(o.a)) m.own[o.b] = false; break;
    case LOCK: if (!m.expired(o.a)) { m.locked = true; m.held = m.s[o.a].tr; } break;
    case UNLOCK: m.locked = false; m.held.clear(); break;
    case CLEAR: m.s[o.a] = MS(); break;
    default: break;
  }
}
// ---------------------------------------------------------------- implementation
static bool alive_[NO]; static int fnlive[64]; static int called, calledfn, calledarg, todo; static const M* cur; static int curslot;
struct Obj { int j; explicit Obj(int j): j(j) { alive_[j] = true; } ~Obj() { if (!alive_[j]) mc::fail("tracked object destroyed twice"); alive_[j] = false; } };
struct TObj : trackable { TObj() { alive_[3] = true; } ~TObj() { alive_[3] = false; } };
struct W {
  boost::shared_ptr<Obj> own[2]; std::shared_ptr<Obj> fown, fown2; std::unique_ptr<TObj> tobj; std::unique_ptr<Sig> sig;
  boost::weak_ptr<Obj> wk[2]; std::weak_ptr<Obj> fwk, fwk2;
  std::optional<SlA> a[2]; std::optional<SlB> b; std::optional<SlC> c; slot_base::locked_container_type L;
  void drop(int o) { if (o < 2) own[o].reset(); else if (o == 2) fown.reset(); else if (o == 3) tobj.reset(); else if (o == 5) fown2.reset(); else sig.reset(); }
};
static W* w;
struct Tok { int fn; explicit Tok(int f): fn(f) { ++fnlive[fn]; } Tok(const Tok& o): fn(o.fn) { ++fnlive[fn]; } ~Tok() { --fnlive[fn]; } };
struct Thrown { int v; };
static int body_fn(int fn, int a) {
  ++called; calledfn = fn; calledarg = a; if (cur->s[curslot].kind != 2 && fnlive[fn] < 1) mc::fail("a slot runs on a destroyed function");
  for (int t : cur->s[curslot].tr) if (t != 4 && !alive_[t]) mc::fail("a slot runs while tracked object %d is gone", t);
  if (todo >= 10) throw Thrown{todo};
  if (todo >= 0) { w->drop(todo); for (int t : cur->s[curslot].tr) if ((t < 3 || t == 5) && !alive_[t]) mc::fail("tracked object %d is not kept alive while its slot runs", t); if (todo == 3) {} }
  return fn * 1000 + a;
}
struct F { Tok t; explicit F(int f): t(f) {} int operator()(int a) const { return body_fn(t.fn, a); } };
static int bound(TObj* o, const F& f, int a) { if (o != w->tobj.get()) mc::fail("wrong bound argument"); return f(a); }
static int innerfn;
struct Inner { int operator()(int a) const { return body_fn(innerfn, a); } };
template <class S> static void call(S& s, const M& m, int i, bool viaconst) {
  called = 0; int arg = 7 + i; bool exp = m.expired(i); int r = -1; bool threw = false, boom = false; cur = &m; curslot = i;
  if (m.s[i].kind == 2) innerfn = m.s[i].fn;
  bool live[3]; for (int j = 0; j < 3; ++j) live[j] = alive_[j]; (void)live;
  try { r = viaconst ? (int)const_cast<const S&>(s)(arg) : (int)s(arg); } catch (const expired_slot&) { threw = true; } catch (const Thrown& t) { boom = true; if (t.v != todo) mc::fail("wrong exception"); }
  if (exp) { if (!threw) mc::fail("calling an expired slot does not throw expired_slot"); if (called) mc::fail("calling an expired slot calls its function"); return; }
  if (threw) mc::fail("expired_slot thrown though every tracked object is alive");
  if (called != 1) mc::fail("one call of a slot called its function %d times", called);
  if (calledfn != m.s[i].fn) mc::fail("calling slot %d called function %d instead of %d", i, calledfn, m.s[i].fn);
  if (calledarg != arg) mc::fail("argument changed");
  if (todo >= 10 ? !boom : (boom || r != m.s[i].fn * 1000 + arg)) mc::fail("wrong result or exception");
}
static void do_call(const M& m, int i, bool cst) { if (i < 2) call(*w->a[i], m, i, cst); else if (i == 2) call(*w->b, m, i, cst); else call(*w->c, m, i, cst); }
template <class S> static void do_track(S& s, int o) {
  const void* r = &s;
  switch (o) { case 0: if (w->own[0]) r = &s.track(w->own[0]); else r = &s.track(w->wk[0]); break; case 1: r = &s.track(w->wk[1]); break;
    case 2: if (w->fown) r = &s.track_foreign(w->fown); else r = &s.track_foreign(w->fwk); break; case 5: r = &s.track_foreign(w->fwk); break; case 4: r = &s.track(*w->sig); break; case 6: if (w->fown2) r = &s.track_foreign(w->fown2); else r = &s.track_foreign(w->fwk2); break; }
  if (r != (const void*)&s) mc::fail("track() does not return the slot");
}
static void check_state(const M& m) {
  for (int i = 0; i < NSL; ++i) if (m.s[i].ex) {
    bool e = i < 2 ? w->a[i]->expired() : i == 2 ? w->b->expired() : w->c->expired();
    if (e != m.expired(i)) mc::fail("slot %d: expired() is %d, expected %d", i, e, m.expired(i));
  }
  for (int o = 0; o < NO; ++o) if (o != 4 && alive_[o] != m.alive(o)) mc::fail("object %d is %s", o, alive_[o] ? "kept alive" : "dead");
  int want[64] = {0}; for (int i = 0; i < NSL; ++i) if (m.s[i].ex && m.s[i].kind != 2) want[m.s[i].fn] = 1;
  for (int f = 0; f < m.nfn; ++f) if ((fnlive[f] > 0) != want[f]) mc::fail("function object %d is %s", f, fnlive[f] > 0 ? "still alive" : "gone");
}
static void slots_body(const Vec& v) {
  w = new W(); M m; memset(fnlive, 0, sizeof fnlive); todo = -1;
  for (int j = 0; j < 2; ++j) { w->own[j].reset(new Obj(j)); w->wk[j] = w->own[j]; } w->fown.reset(new Obj(2)); w->fwk = w->fown; w->fown2.reset(new Obj(5)); w->fwk2 = w->fown2; w->tobj.reset(new TObj); w->sig.reset(new Sig); w->sig->connect(Inner());
  int step = 0;
  for (int k : v) {
    const Op& o = OPS()[k]; M before = m; ++step;
    switch (o.code) {
      case MAKE: { F f(m.nfn); if (o.b == 0) w->a[o.a] = SlA(f); else if (o.b == 1) w->a[o.a] = SlA(&bound, w->tobj.get(), f, boost::placeholders::_1); else w->a[o.a] = SlA(*w->sig); break; }
      case TRACK: if (o.a < 2) do_track(*w->a[o.a], o.b); else if (o.a == 2) do_track(*w->b, o.b); else do_track(*w->c, o.b); break;
      case TRSLOT: { const slot_base& t = o.b < 2 ? static_cast<slot_base&>(*w->a[o.b]) : o.b == 2 ? static_cast<slot_base&>(*w->b) : static_cast<slot_base&>(*w->c);
        if (o.a < 2) w->a[o.a]->track(t); else if (o.a == 2) w->b->track(t); else w->c->track(t); break; }
      case COPY: {
        int s = o.b % 10; bool tmp = o.b >= 10;
        if (o.a < 2 && s < 2) { if (tmp) { SlA x(*w->a[s]); SlA y(std::move(x)); w->a[o.a].reset(); w->a[o.a].emplace(y); } else if (o.a == s) { SlA& r = *w->a[s]; *w->a[o.a] = r; } else if (w->a[o.a]) *w->a[o.a] = *w->a[s]; else w->a[o.a] = w->a[s]; }
        else if (o.a == 2 && s < 2) w->b.emplace(*w->a[s]);
        else if (o.a == 2 && s == 2) { SlB x(*w->b); *w->b = x; }
        else if (o.a < 2 && s == 2) w->a[o.a] = SlA(*w->b);
        else if (o.a == 3 && s < 2) w->c.emplace(*w->a[s]);
        else if (o.a == 3 && s == 2) w->c.emplace(*w->b);
        break; }
      case DROP: w->drop(o.a); break;
      case CALL: do_call(before, o.a, k & 1); break;
      case CALLDROP: todo = o.b; do_call(before, o.a, (o.b + step) & 1); todo = -1; break;
      case CALLTHROW: todo = 12; do_call(before, o.a, true); todo = -1; break;
      case LOCK: { bool threw = false; try { slot_base::locked_container_type n = o.a < 2 ? w->a[o.a]->lock() : o.a == 2 ? w->b->lock() : w->c->lock();
          if (step % 3 == 0) w->L.swap(n); else if (n.size() != w->L.size()) w->L = n; else for (size_t e = 0; e < n.size(); ++e) { w->L[e] = n[e]; w->L[e] = static_cast<const slot_base::locked_container_type&>(w->L)[e]; } } catch (const expired_slot&) { threw = true; } if (threw != m.expired(o.a)) mc::fail("lock() %s", threw ? "throws though every tracked object is alive" : "does not throw on an expired slot"); break; }
      case UNLOCK: w->L.clear(); break;
      case CLEAR: w->a[o.a].reset(); break;
    }
    model(m, o); check_state(m);
  }
  for (int i = 0; i < NSL; ++i) if (m.s[i].ex) { do_call(m, i, true); check_state(m); }
  w->L.clear(); m.held.clear(); check_state(m);
  delete w; w = nullptr; for (int f = 0; f < 64; ++f) if (fnlive[f]) mc::fail("a slot function leaks");
  for (bool a : alive_) if (a) mc::fail("a tracked object leaks");
}
static Reg r1("slots", slots_body);
// ---------------------------------------------------------------- objects found in bound arguments
struct TB : trackable { int v; TB(): v(1) {} };
struct Plain { int v; };
struct BW { std::unique_ptr<TB> t[2]; TB value; std::unique_ptr<Sig> s[2]; boost::shared_ptr<Obj> o; };
static BW* bw; static int bagcalls;
enum { BI, BPT0, BRT1, BRS0, BPS1, BNULLT, BNULLS, BFN, BCT0, BRP, NBAG };
static int free_fn(int x) { return x; }
static int bag_tracks(int k) { switch (k) { case BPT0: case BCT0: return 1; case BRT1: return 2; case BRS0: return 4; case BPS1: return 8; default: return 0; } }
struct Bag {      // a function object that shows a list of arguments to visit_each, as a bind expression does
  Vec kinds; int operator()(int a) const { ++bagcalls; return a + 1; }
};
template <class V> void visit_each(V& vis, const Bag& b, long) {
  static Plain pl = {1};
  for (int k : b.kinds) switch (k) {
    case BI: boost::visit_each(vis, k); break;
    case BPT0: { TB* p = bw->t[0].get(); boost::visit_each(vis, p); break; }
    case BRT1: boost::visit_each(vis, boost::ref(*bw->t[1])); break;
    case BRS0: boost::visit_each(vis, boost::ref(*bw->s[0])); break;
    case BPS1: { Sig* p = bw->s[1].get(); boost::visit_each(vis, p); break; }
    case BNULLT: { TB* p = 0; boost::visit_each(vis, p); break; }
    case BNULLS: { Sig* p = 0; boost::visit_each(vis, p); break; }
    case BFN: boost::visit_each(vis, &free_fn); break;
    case BCT0: boost::visit_each(vis, boost::cref(*bw->t[0])); break;
    case BRP: boost::visit_each(vis, boost::ref(pl)); break;
  }
}
static void bag_setup() { bw = new BW; bagcalls = 0; for (auto& t : bw->t) t.reset(new TB); for (auto& s : bw->s) s.reset(new Sig); bw->o.reset(new Obj(0)); }
static void bag_kill(int k) { if (k < 2) bw->t[k].reset(); else if (k < 4) bw->s[k - 2].reset(); else if (k == 4) bw->o.reset(); }
template <class S> static void bag_check(S& s, bool exp, const char* what) {
  if (s.expired() != exp) mc::fail("%s: expired() is %d, expected %d", what, !exp, exp);
  bool threw = false; try { typename S::locked_container_type l = s.lock(); } catch (const expired_slot&) { threw = true; } if (threw != exp) mc::fail("%s: lock() %s", what, threw ? "throws" : "does not throw");
  int n = bagcalls; threw = false; int r = 0; try { r = (int)s(4); } catch (const expired_slot&) { threw = true; }
  if (threw != exp || (bagcalls != n) == exp || (!exp && r != 5)) mc::fail("%s: the call is wrong", what);
}
// how: 0 the slot, 1 a copy made before, 2 a slot of another type that tracks it
static void bag_body(const Vec& v) {
  bag_setup(); Bag b; int how = v[0], kill = v[1], mask = how == 2 ? 16 : 0; b.kinds.assign(v.begin() + 2, v.end()); for (int k : b.kinds) mask |= bag_tracks(k);
  { std::unique_ptr<Bag> src(new Bag(b)); SlA s(*src);
    SlA cp(s); SlB other(F(0)); other = SlB([](int a) { ++bagcalls; return a + 1; }); if (how == 2) { other.track(s); other.track(bw->o); }
    { if (how == 0) bag_check(s, false, "slot"); else if (how == 1) bag_check(cp, false, "copy"); else bag_check(other, false, "tracking slot"); bag_kill(kill); bool exp = kill < 5 && (mask >> kill & 1);
      if (how == 0) bag_check(s, exp, "slot"); else if (how == 1) bag_check(cp, exp, "copy"); else bag_check(other, exp, "tracking slot"); } }
  delete bw; bw = 0;
}
static Reg r2("bag", bag_body);
// real bind expressions, directly and through the slot's binding constructor
enum { NARG = 6 };
template <int K> struct Arg; 
template <> struct Arg<0> { static int get() { return 3; } };
template <> struct Arg<1> { static TB* get() { return bw->t[0].get(); } };
template <> struct Arg<2> { static boost::reference_wrapper<TB> get() { return boost::ref(*bw->t[1]); } };
template <> struct Arg<3> { static boost::reference_wrapper<Sig> get() { return boost::ref(*bw->s[0]); } };
template <> struct Arg<4> { static Sig* get() { return bw->s[1].get(); } };
template <> struct Arg<5> { static TB* get() { return 0; } };
static const int argmask[NARG] = {0, 1, 2, 4, 8, 0};
struct Any3 { typedef int result_type; template <class A, class B> int operator()(A&, B&, int a) const { ++bagcalls; return a + 1; } template <class A, class B> int operator()(const A&, const B&, int a) const { ++bagcalls; return a + 1; } };
template <int X, int Y> static void bind_body2(const Vec& v) {
  int mask = argmask[X] | argmask[Y], kill = v[1]; bool exp = kill < 5 && (mask >> kill & 1);
  if (v[0]) { SlA s(Any3(), Arg<X>::get(), Arg<Y>::get(), boost::placeholders::_1); SlA t(s); bag_check(s, false, "slot"); bag_kill(kill); bag_check(s, exp, "slot"); bag_check(t, exp, "copy"); }
  else { SlA s(boost::bind(Any3(), Arg<X>::get(), Arg<Y>::get(), boost::placeholders::_1)); SlC t(s); bag_check(s, false, "slot"); bag_kill(kill); bag_check(s, exp, "slot"); bag_check(t, exp, "copy"); }
}
template <int X> static void bind_body1(const Vec& v) {
  switch (v[3]) { case 0: bind_body2<X, 0>(v); break; case 1: bind_body2<X, 1>(v); break; case 2: bind_body2<X, 2>(v); break; case 3: bind_body2<X, 3>(v); break; case 4: bind_body2<X, 4>(v); break; default: bind_body2<X, 5>(v); }
}
static void bind_body(const Vec& v) {
  bag_setup();
  switch (v[2]) { case 0: bind_body1<0>(v); break; case 1: bind_body1<1>(v); break; case 2: bind_body1<2>(v); break; case 3: bind_body1<3>(v); break; case 4: bind_body1<4>(v); break; default: bind_body1<5>(v); }
  delete bw; bw = 0;
}
static Reg r3("bind", bind_body);
// ---------------------------------------------------------------- an owner that goes away at any of the library's looks at a tracked pointer
// (what a concurrent release does, at the finest grain a user-supplied pointer type can see)
struct VObj { bool* live; explicit VObj(bool* l): live(l) { *live = true; } ~VObj() { *live = false; } };
static std::shared_ptr<VObj> vown[3]; static bool vlive[3]; static int vtick, vat, vwho, vmask, vruns, vdead; static bool vbefore;
struct VShared { std::shared_ptr<VObj> p; };
struct VWeak {
  typedef VObj element_type; std::weak_ptr<VObj> w;
  void look(bool before) const { if (before) ++vtick; if (vtick == vat && before == vbefore) vown[vwho].reset(); }
  VShared lock() const { look(true); VShared s; s.p = w.lock(); look(false); return s; }
  bool expired() const { look(true); bool e = w.expired(); look(false); return e; }
};
namespace boost { namespace signals2 {
template <> struct weak_ptr_traits<VWeak> { typedef VShared shared_type; };
template <> struct shared_ptr_traits<VShared> { typedef VWeak weak_type; };
} }
static void vcheck() { for (int j = 0; j < 3; ++j) if ((vmask >> j & 1) && !vlive[j]) ++vdead; }
struct VF { int operator()(int a) const { ++vruns; vcheck(); for (auto& o : vown) o.reset(); vcheck(); return a + 1; } };
// how, who goes, before/after, at which look, number of tracked pointers, order
static void vanish_body(const Vec& v) {
  int how = v[0]; vwho = v[1]; vbefore = v[2]; vat = -1; vmask = vruns = vdead = vtick = 0;
  for (int j = 0; j < 3; ++j) vown[j].reset(new VObj(&vlive[j]));
  { SlA s((VF())); for (size_t i = 4; i < v.size(); ++i) { VWeak k; k.w = vown[v[i]]; s.track_foreign(k); vmask |= 1 << v[i]; }
    SlA cp(s); SlB b(s); Sig sig; connection c; Sig::extended_slot_type es([](const connection&, int a) { return VF()(a); }); es.track(s);
    bool threw = false, counted = true; int r = 0; vtick = 0; vat = v[3];
    if (how == 6) c = sig.connect(s); if (how == 7) c = sig.connect_extended(es); if (how == 8) { vat = -1; c = sig.connect(s); vtick = 0; vat = v[3]; }
    try { switch (how) { case 0: r = s(4); break; case 1: r = static_cast<const SlA&>(s)(4); break; case 2: r = cp(4); break; case 3: r = b(4); break;
      case 4: { auto l = s.lock(); vcheck(); for (auto& o : vown) o.reset(); vcheck(); counted = false; break; }
      case 5: { bool before = s.expired(); bool gone = false; for (int j = 0; j < 3; ++j) if ((vmask >> j & 1) && !vlive[j]) gone = true; if (before && !gone) mc::fail("expired() is true though every tracked object is alive"); counted = false; break; }
      default: r = sig(4); } } catch (const expired_slot&) { threw = true; } catch (const no_slots_error&) { threw = true; }
    if (vdead) mc::fail("tracked object gone while it should be kept alive (expiry at look %d)", vat);
    if (counted && (threw ? vruns != 0 : (vruns != 1 || r != 5))) mc::fail("%d calls, result %d (expiry at look %d)", vruns, r, vat);
    if (threw && !(vmask >> vwho & 1)) mc::fail("expired though every tracked object is alive");
    if (vmask) { vat = -1; for (auto& o : vown) o.reset(); if (!s.expired()) mc::fail("expired() is false though the tracked objects are gone"); if (how >= 6) { if (c.connected()) mc::fail("connected() is true though the tracked objects are gone"); int n = vruns; try { sig(4); } catch (const no_slots_error&) {} if (vruns != n) mc::fail("a slot runs on dead objects"); } }
  }
  for (auto& o : vown) o.reset(); for (bool l : vlive) if (l) mc::fail("a tracked object leaks");
}
static Reg r4("vanish", vanish_body);
// ---------------------------------------------------------------- trackable objects that are copied, moved and assigned: slots stay with the object they were bound to
struct TC : trackable { int v; static int hits[64]; TC(): v(0) {} void hit(int id) { if (v != 77) mc::fail("a slot runs on a destroyed trackable object"); ++hits[id]; } ~TC() { v = 0; } };
int TC::hits[64];
static void free_hit(TC& t, int id) { t.hit(id); }
enum { TCON, TCONR = 2, TNEW = 4, TCOPY = 6, TMOVE = 8, TASG = 10, TMASG = 12, TSELF = 14, TDEL = 16, TEMIT = 18, NTC };
static void tcopy_body(const Vec& v) {
  { signal<void()> sig; TC* o[2] = {0, 0}; std::vector<std::pair<connection, bool> > k; std::vector<TC*> own; memset(TC::hits, 0, sizeof TC::hits);
    auto kill = [&](int i) { for (size_t c = 0; c < k.size(); ++c) if (own[c] == o[i]) { k[c].second = false; own[c] = 0; } delete o[i]; o[i] = 0; };
    auto made = [&](int i) { o[i]->v = 77; };
    for (size_t q = 0; q <= v.size(); ++q) {
      int op = q < v.size() ? v[q] : (int)TEMIT, i = op & 1, id = (int)k.size();
      switch (op & ~1) {
        case TCON: if (o[i]) { k.push_back({id % 2 ? sig.connect(boost::bind(&TC::hit, o[i], id)) : sig.connect(signal<void()>::slot_type(&TC::hit, o[i], id)), true}); own.push_back(o[i]); } break;
        case TCONR: if (o[i]) { k.push_back({sig.connect(boost::bind(free_hit, boost::ref(*o[i]), id)), true}); own.push_back(o[i]); } break;
        case TNEW: if (!o[i]) { o[i] = new TC; made(i); } break;
        case TCOPY: if (!o[i] && o[1 - i]) { o[i] = new TC(*o[1 - i]); made(i); } break;
        case TMOVE: if (!o[i] && o[1 - i]) { o[i] = new TC(std::move(*o[1 - i])); made(i); } break;
        case TASG: if (o[i] && o[1 - i]) *o[i] = *o[1 - i]; break;
        case TMASG: if (o[i] && o[1 - i]) *o[i] = std::move(*o[1 - i]); break;
        case TSELF: if (o[i]) { TC& r = *o[i]; *o[i] = r; } break;
        case TDEL: if (o[i]) kill(i); break;
        case TEMIT: { std::vector<int> h(TC::hits, TC::hits + k.size()); sig(); for (size_t c = 0; c < k.size(); ++c) if (TC::hits[c] - h[c] != k[c].second) mc::fail("slot %zu is %s", c, k[c].second ? "not called though its trackable object lives" : "called though its trackable object is gone"); break; }
      }
      size_t n = 0; for (auto& c : k) { n += c.second; if (c.first.connected() != c.second) mc::fail("connected() is %d, expected %d", !c.second, c.second); } if (sig.num_slots() != n) mc::fail("num_slots is %zu, expected %zu", sig.num_slots(), n);
    }
    delete o[0]; delete o[1]; }
}
static Reg r5("tcopy", tcopy_body);
// what slot_base::lock() returns: copied, assigned, moved, swapped and edited, it keeps exactly its objects alive
static void locked_body(const Vec& v) {
  static const int id[4] = {0, 1, 2, 5};
  boost::shared_ptr<Obj> b[2]; std::shared_ptr<Obj> f[2]; for (int j = 0; j < 2; ++j) { b[j].reset(new Obj(id[j])); f[j].reset(new Obj(id[2 + j])); }
  int op = v[0], n1 = v[1]; Vec t1(v.begin() + 2, v.begin() + 2 + n1), t2(v.begin() + 2 + n1, v.end());
  typedef slot_base::locked_container_type LC;
  { SlA s1((F(0))), s2((F(1))); auto tr = [&](SlA& s, const Vec& t) { for (int k : t) if (k < 2) s.track(b[k]); else s.track_foreign(f[k - 2]); }; tr(s1, t1); tr(s2, t2);
    LC x = s1.lock(), y = s2.lock(); Vec hx = t1, hy = t2;
    switch (op) {
      case 0: x = y; hx = hy; break;
      case 1: x = std::move(y); hx = hy; y.clear(); hy.clear(); break;
      case 2: x.swap(y); std::swap(hx, hy); break;
      case 3: { LC z(y); y.clear(); x = z; hx = hy; hy.clear(); break; }
      case 4: if (!hx.empty() && !hy.empty()) { x[0] = y[0]; hx[0] = hy[0]; } break;
      case 5: if (!hx.empty() && !hy.empty()) { std::swap(x[0], y[0]); std::swap(hx[0], hy[0]); } break;
      case 6: if (!hx.empty()) { x.erase(x.begin()); hx.erase(hx.begin()); } break;
      case 7: if (!hy.empty()) { x.insert(x.begin(), y[0]); hx.insert(hx.begin(), hy[0]); } break;
      case 8: { LC& r = x; x = r; if (!hx.empty()) x[0] = static_cast<const LC&>(x)[0]; break; }
      case 9: std::reverse(x.begin(), x.end()); std::reverse(hx.begin(), hx.end()); break;
      case 10: { SlA s3(s1); s3 = s2; x = s3.lock(); hx = hy; break; }
      case 11: { SlA s3(s1); std::swap(s3, s2); x = s2.lock(); y = s3.lock(); SlA& r = s2; s2 = r; if (s2.expired()) mc::fail("a slot assigned to itself is expired"); break; }
      case 12: for (auto& e : x) e = detail::void_shared_ptr_variant(); hx.clear(); break;
    }
    for (auto& o : b) o.reset();
    for (auto& o : f) o.reset();
    auto check = [&] { for (int k = 0; k < 4; ++k) { bool want = std::count(hx.begin(), hx.end(), k) || std::count(hy.begin(), hy.end(), k); if (alive_[id[k]] != want) mc::fail("object %d is %s", k, want ? "gone although a locked object" : "kept alive"); } };
    auto exp = [&](const SlA& s, const Vec& t) { bool e = false; for (int k : t) if (!alive_[id[k]]) e = true; if (s.expired() != e) mc::fail("expired() is %d", !e); };
    bool sw = op == 11;
    check(); exp(s1, t1); exp(s2, sw ? t1 : t2); x.clear(); hx.clear(); check(); exp(s1, t1); y.clear(); hy.clear(); check(); exp(s1, t1); exp(s2, sw ? t1 : t2); }
}
static Reg r6("locked", locked_body);
static void rec(const M& m, Vec& v, const Vec& alpha, int left) {
  run_case("slots", v); if (!left || stop) return;
  for (int k : alpha) if (applicable(m, OPS()[k])) { M n = m; model(n, OPS()[k]); v.push_back(k); rec(n, v, alpha, left - 1); v.pop_back(); }
}
static int idx(int c, int a, int b) { for (size_t i = 0; i < OPS().size(); ++i) if (OPS()[i].code == c && OPS()[i].a == a && OPS()[i].b == b) return (int)i; exit(4); }
static void from(const std::vector<Op>& base, const Vec& alpha, int depth) { M m; Vec v; for (auto& o : base) { int k = idx(o.code, o.a, o.b); if (!applicable(m, OPS()[k])) return; model(m, OPS()[k]); v.push_back(k); } rec(m, v, alpha, depth); }
static void families(const std::string& prof, bool th) {
  if (prof == "C08t") { sequences(NTC, th ? 5 : 4, [&](const Vec& s) { Vec v = {TNEW}; v.insert(v.end(), s.begin(), s.end()); run_case("tcopy", v); Vec w = {TNEW, TNEW + 1, TCON, TCON + 1}; w.insert(w.end(), s.begin(), s.end()); run_case("tcopy", w); }); return; }
  { int mx = th ? 4 : 3; for (int op = 0; op < 13; ++op) for (int n = 0; n <= mx; ++n) for (int m = 0; m <= mx; ++m) { if (!(n + m)) { run_case("locked", Vec{op, 0}); continue; }
      product(Vec(n + m, 4), [&](const Vec& q) { Vec v{op, n}; v.insert(v.end(), q.begin(), q.end()); run_case("locked", v); }); } }
  Vec all; for (size_t i = 0; i < OPS().size(); ++i) all.push_back((int)i);
  from({}, all, th ? 5 : 4);
  for (int k = 0; k < 3; ++k) for (int t = 0; t < 7; ++t) if (t != 3) from({{MAKE, 0, k}, {TRACK, 0, t}, {COPY, 2, 0}, {COPY, 3, 0}, {COPY, 1, 0}}, all, th ? 3 : 2);
  Vec life; for (size_t i = 0; i < OPS().size(); ++i) { auto& o = OPS()[i]; if (o.code == DROP || o.code == LOCK || o.code == UNLOCK || o.code == CALLDROP || (o.code == CALL && o.a != 1)) life.push_back((int)i); }
  for (int k = 0; k < 3; ++k) from({{MAKE, 0, k}, {TRACK, 0, 0}, {TRACK, 0, 2}, {TRACK, 0, 4}, {COPY, 2, 0}, {TRACK, 2, 1}, {COPY, 3, 2}}, life, th ? 5 : 4);
  // assignment between slots with tracked lists of different lengths and contents
  Vec as; for (size_t i = 0; i < OPS().size(); ++i) { auto& o = OPS()[i]; if (o.code == DROP || (o.code == COPY && o.a < 2) || (o.code == TRACK && o.a < 2 && (o.b == 2 || o.b == 6 || o.b == 0)) || (o.code == CALL && o.a < 2) || o.code == CALLDROP) as.push_back((int)i); }
  for (int x : {0, 1, 2, 6}) for (int y : {0, 1, 2, 6}) from({{MAKE, 0, 0}, {TRACK, 0, x}, {MAKE, 1, 0}, {TRACK, 1, y}}, as, th ? 4 : 3);
  // an owner that goes at every look of the library at it: every list of up to 3 (thorough: 4) tracked pointers to 3 objects
  for (int n = 0; n <= (th ? 4 : 3); ++n) for (int how = 0; how < 9; ++how) for (int who = 0; who < (n ? 3 : 1); ++who) for (int before = 0; before < 2; ++before) for (int at = 0; at <= 4 * n + 2; ++at) {
    if (!n) { if (!at) run_case("vanish", Vec{how, who, before, at}); continue; } product(Vec(n, 3), [&](const Vec& q) { Vec v{how, who, before, at}; v.insert(v.end(), q.begin(), q.end()); run_case("vanish", v); }); }
  // bound arguments: every list of up to 3 (thorough: 4) of the kinds, every object destroyed
  for (int l = 0; l <= (th ? 4 : 3); ++l) for (int how = 0; how < 3; ++how) for (int kill = 0; kill < 6; ++kill) { if (!l) { run_case("bag", Vec{how, kill}); continue; } product(Vec(l, NBAG), [&](const Vec& q) { Vec v{how, kill}; v.insert(v.end(), q.begin(), q.end()); run_case("bag", v); }); }
  for (int x = 0; x < NARG; ++x) for (int y = 0; y < NARG; ++y) for (int how = 0; how < 2; ++how) for (int kill = 0; kill < 6; ++kill) run_case("bind", Vec{how, kill, x, y});
}
