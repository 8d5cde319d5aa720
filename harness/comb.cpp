// C10: combiners. Every combination of slot states and every script of iterator operations up to a length, against a reference.
#include "unit.h"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
#include <numeric>
#include <algorithm>
#include <stdexcept>
using namespace boost::signals2;
enum St { L, D, B, E, X, T, NST };     // live, disconnected, blocked, tracked object expired, throws expired_slot, throws something else
struct Boom { int id; };
// what "something else" is: a class of its own, a std::exception, a relative of expired_slot
struct BoomStd : Boom, std::runtime_error { BoomStd(int i): Boom{i}, std::runtime_error("boom") {} };
struct BoomWeak : Boom, boost::bad_weak_ptr { BoomWeak(int i): Boom{i} {} };
static void boom(int id, int salt) { switch ((id + salt) % 3) { case 0: throw Boom{id}; case 1: throw BoomStd(id); default: throw BoomWeak(id); } }
static int salt;
static int ncalls, callseq[64]; static int combs;
static int ints[16];
static void enter(int id) { if (ncalls < 64) callseq[ncalls] = id; ++ncalls; }
template <class R> struct Val;
template <> struct Val<int> { static int make(int id) { return 100 + id; } static int read(int v) { return v - 100; } };
template <> struct Val<std::string> { static std::string make(int id) { return std::string(40, 'x') + char('a' + id); } static int read(const std::string& s) { return s.size() == 41 ? s[40] - 'a' : -9; } };
template <> struct Val<int&> { static int& make(int id) { return ints[id]; } static int read(int& v) { return (int)(&v - ints); } };
template <> struct Val<std::shared_ptr<int> > { static std::shared_ptr<int> make(int id) { return std::make_shared<int>(id); } static int read(const std::shared_ptr<int>& p) { return p ? *p : -9; } };
template <> struct Val<std::unique_ptr<int> > { static std::unique_ptr<int> make(int id) { return std::unique_ptr<int>(new int(id)); } static int read(const std::unique_ptr<int>& p) { return p ? *p : -9; } };
template <class R> struct Slot { int id, st; R operator()() const { enter(id); if (st == X) boost::throw_exception(expired_slot()); if (st == T) boom(id, salt); return Val<R>::make(id); } };
template <> struct Slot<void> { int id, st; void operator()() const { enter(id); if (st == X) boost::throw_exception(expired_slot()); if (st == T) boom(id, salt); } };
// scripted combiner: runs a script of iterator operations and records what it saw
enum Act { DEREF, INC, COPYDEREF, POSTINC, CMP, NACT };
static const Vec* script; static int seen[32], nseen, steps;
static void see(int x) { if (nseen < 32) seen[nseen] = x; ++nseen; }
template <class R> struct Rd { template <class It> static int get(It& it) { return Val<R>::read(*it); } template <class It> static int post(It& it) { return Val<R>::read(*it++); } };
template <> struct Rd<int&> { template <class It> static int get(It& it) { return Val<int&>::read(*it); } template <class It> static int post(It& it) { int v = get(it); ++it; return v; } };
template <> struct Rd<void> { template <class It> static int get(It& it) { *it; return 0; } template <class It> static int post(It& it) { *it++; return 0; } };
template <class R> struct Scripted {
  typedef int result_type; int uses; Scripted(): uses(0) {}
  template <class It> int operator()(It f, It l) { ++uses; ++combs; return run(f, l); }
  template <class It> int operator()(It f, It l) const { ++combs; return run(f, l); }
  template <class It> static int run(It f, It l) {
    bool failed = false; int r = 0;
    for (int a : *script) {
      bool end = f == l; if (end != !(f != l)) mc::fail("== and != of slot iterators agree");
      see(end ? -1 : -2); if (end) { if (a == CMP) continue; break; }
      try {
        switch (a) {
          case DEREF: if (!failed) { int v = Rd<R>::get(f); see(v); r = r * 7 + v + 1; } break;
          case INC: ++f; failed = false; break;
          case COPYDEREF: if (!failed) { It g(f); if (!(g == f)) mc::fail("a copied iterator differs"); int v = Rd<R>::get(g); see(v); r = r * 7 + v + 1; } break;
          case POSTINC: if (failed) { ++f; failed = false; } else { int v = Rd<R>::post(f); see(v); r = r * 7 + v + 1; } break;
          case CMP: { It g(l); if ((f == g) != end || (g == f) != end) mc::fail("iterator comparison is not symmetric"); break; }
        }
      } catch (const expired_slot&) { see(-7); failed = true; }
    }
    return r;
  }
};
template <class R> struct SigOf { typedef R type(); };
// builds a signal with the given slot states, emits, hands the outcome to 'judge'
template <class S> struct Fix {
  S sig; std::vector<connection> con; std::vector<std::shared_ptr<int>> keep; std::vector<std::unique_ptr<shared_connection_block>> blocks;
  template <class R> void fill(const Vec& st, int n, int order) {
    for (int i = 0; i < n; ++i) {
      boost::shared_ptr<int> tr; Slot<R> f = {i, st[i]}; typename S::slot_type s(f); if (st[i] == E) { tr.reset(new int(0)); s.track(tr); }
      con.push_back(order ? sig.connect(i, s) : sig.connect(s));
    }
    for (int i = 0; i < n; ++i) { if (st[i] == D) con[i].disconnect(); if (st[i] == B) blocks.emplace_back(new shared_connection_block(con[i])); }
  }
};
static bool callable(int s) { return s == L || s == X || s == T; }
static Vec callables(const Vec& st, int n) { Vec c; for (int i = 0; i < n; ++i) if (callable(st[i])) c.push_back(i); return c; }
static void expect_calls(const Vec& want) {
  if (ncalls != (int)want.size()) mc::fail("%d slot calls instead of %d", ncalls, (int)want.size());
  for (int i = 0; i < ncalls; ++i) if (callseq[i] != want[i]) mc::fail("call %d is of slot %d instead of %d", i, callseq[i], want[i]);
}
template <class S> static void expect_state(Fix<S>& f, const Vec& st, int n, const Vec& called) {
  int num = 0;
  for (int i = 0; i < n; ++i) { bool dis = st[i] == D || st[i] == E || (st[i] == X && std::count(called.begin(), called.end(), i)); if (f.con[i].connected() == dis) mc::fail("slot %d: connected() is %d", i, dis); if (!dis) ++num; }
  if ((int)f.sig.num_slots() != num) mc::fail("num_slots is %d instead of %d", (int)f.sig.num_slots(), num);
}
// v: type, const emission, grouped, n, states[n], script...
template <class R> static void scripted(const Vec& v) {
  bool cst = v[1]; int n = v[3]; salt = v[0] + (int)v.size(); Vec st(v.begin() + 4, v.begin() + 4 + n), sc(v.begin() + 4 + n, v.end()); script = &sc;
  typedef signal<typename SigOf<R>::type, Scripted<R> > S;
  { Fix<S> f; f.template fill<R>(st, n, v[2]); ncalls = nseen = combs = 0;
    // reference
    Vec c = callables(st, n), calls, saw; size_t p = 0; bool cached = false, failed = false; int r = 0; bool boom = false; int boomid = -1;
    for (int a : sc) {
      bool end = p == c.size(); saw.push_back(end ? -1 : -2); if (end) { if (a == CMP) continue; break; }
      if (a == CMP) continue; if (a == INC || (a == POSTINC && failed)) { ++p; cached = failed = false; continue; }
      if (failed) continue;
      if (!cached) { calls.push_back(c[p]); if (st[c[p]] == X) { saw.push_back(-7); failed = true; continue; } if (st[c[p]] == T) { boom = true; boomid = c[p]; break; } }
      int val = std::is_same<R, void>::value ? 0 : c[p]; saw.push_back(val); r = r * 7 + val + 1; cached = true;
      if (a == POSTINC) { ++p; cached = false; }
    }
    int got = -1; bool gotboom = false;
    try { got = cst ? const_cast<const S&>(f.sig)() : f.sig(); } catch (const Boom& b) { gotboom = true; if (b.id != boomid) mc::fail("another slot's exception"); }
    if (combs != 1) mc::fail("combiner invoked %d times by one emission", combs);
    if (gotboom != boom) mc::fail("exception %s", boom ? "lost" : "invented");
    expect_calls(calls);
    if (nseen != (int)saw.size()) mc::fail("the combiner saw %d items instead of %d", nseen, (int)saw.size());
    for (int i = 0; i < nseen; ++i) if (seen[i] != saw[i]) mc::fail("item %d seen by the combiner is %d instead of %d", i, seen[i], saw[i]);
    if (!boom && got != r) mc::fail("emission returned %d instead of the combiner's %d", got, r);
    expect_state(f, st, n, calls);
    if (!cst && f.sig.combiner().uses != 1) mc::fail("the emission did not use the signal's own combiner");
  }
  script = 0;
}
static void scripted_body(const Vec& v) { switch (v[0]) { case 0: scripted<int>(v); break; case 1: scripted<std::string>(v); break; case 2: scripted<int&>(v); break; case 3: scripted<void>(v); break; } }
static Reg r1("scripted", scripted_body);
// ---- the library's combiners. v: combiner, type, const, grouped, n, states
template <class R, class Res> struct Out { static int get(const Res& r) { return Val<R>::read(r); } };
template <class R> struct Out<R, boost::optional<R> > { static int get(const boost::optional<R>& r) { return r ? Val<R>::read(*r) : -1; } };
template <class R, class C> static void library(const Vec& v, bool throws_empty) {
  typedef signal<typename SigOf<R>::type, C> S; int n = v[4]; Vec st(v.begin() + 5, v.begin() + 5 + n);
  Fix<S> f; f.template fill<R>(st, n, v[3]);
  for (int round = 0; round < 2; ++round) {
    ncalls = 0; Vec c = callables(st, n), calls; int last = -1; bool boom = false;
    for (int i : c) { calls.push_back(i); if (st[i] == T) { boom = true; break; } if (st[i] == L) last = i; }
    int got = -2; bool gotboom = false, none = false;
    try { if (v[2]) { const S& s = f.sig; got = Out<R, typename S::result_type>::get(s()); } else got = Out<R, typename S::result_type>::get(f.sig()); }
    catch (const Boom&) { gotboom = true; } catch (const no_slots_error&) { none = true; } catch (const expired_slot&) { mc::fail("expired_slot escapes from a library combiner"); }
    if (gotboom != boom) mc::fail("exception %s", boom ? "lost" : "invented");
    expect_calls(calls); expect_state(f, st, n, calls);
    if (!boom) {
      if (throws_empty) { if (none != (last < 0)) mc::fail(none ? "no_slots_error though a slot returned a value" : "no no_slots_error without a value"); if (!none && got != last) mc::fail("value of slot %d instead of %d", got, last); }
      else { if (none) mc::fail("no_slots_error from optional_last_value"); if (got != last) mc::fail("value of slot %d instead of %d", got, last); }
    }
    for (int i : calls) if (st[i] == X) st[i] = D;
  }
}
template <class S, bool Opt> static void library_void(const Vec& v) {
  int n = v[4]; Vec st(v.begin() + 5, v.begin() + 5 + n); Fix<S> f; f.template fill<void>(st, n, v[3]);
  for (int round = 0; round < 2; ++round) {
    ncalls = 0; Vec c = callables(st, n), calls; bool boom = false, gotboom = false; for (int i : c) { calls.push_back(i); if (st[i] == T) { boom = true; break; } }
    try { if (v[2]) const_cast<const S&>(f.sig)(); else f.sig(); } catch (const Boom&) { gotboom = true; } catch (const expired_slot&) { mc::fail("expired_slot escapes from a library combiner"); } catch (const no_slots_error&) { mc::fail("no_slots_error from a void combiner"); }
    if (gotboom != boom) mc::fail("exception %s", boom ? "lost" : "invented");
    expect_calls(calls); expect_state(f, st, n, calls);
    for (int i : calls) if (st[i] == X) st[i] = D;
  }
}
static void library_body(const Vec& v) {
  switch (v[0] * 10 + v[1]) {
    case 0: library<int, last_value<int> >(v, true); break; case 1: library<std::string, last_value<std::string> >(v, true); break; case 2: library<std::shared_ptr<int>, last_value<std::shared_ptr<int> > >(v, true); break;
    case 3: library_void<signal<void(), last_value<void> >, false>(v); break; case 5: library<int&, last_value<int&> >(v, true); break;
    case 10: library<int, optional_last_value<int> >(v, false); break; case 11: library<std::string, optional_last_value<std::string> >(v, false); break; case 12: library<std::shared_ptr<int>, optional_last_value<std::shared_ptr<int> > >(v, false); break;
    case 13: library_void<signal<void(), optional_last_value<void> >, true>(v); break;
#ifndef REDUCED        // does not compile where the library copies the value
    case 14: library<std::unique_ptr<int>, optional_last_value<std::unique_ptr<int> > >(v, false); break;
#endif
    case 15: library<int&, optional_last_value<int&> >(v, false); break;
    case 20: library_void<signal<void()>, true>(v); break;
  }
}
static Reg r2("library", library_body);
// ---- standard algorithms as combiners, stateful and constructed combiners. v: algorithm, n, states
struct Alg {
  typedef std::vector<int> result_type; int id; long uses; std::shared_ptr<int> res; explicit Alg(int i = 0): id(i), uses(0), res(std::make_shared<int>(i)) {}
  template <class It> std::vector<int> operator()(It f, It l) {
    ++uses; ++combs; std::vector<int> r;
    switch (id) {
      case 0: r.assign(f, l); break;
      case 1: r = std::vector<int>(f, l); break;
      case 2: std::copy(f, l, std::back_inserter(r)); break;
      case 3: std::for_each(f, l, [&](int x) { r.push_back(x); }); break;
      case 4: r.push_back(std::accumulate(f, l, 0)); break;
      case 5: { It i = std::find(f, l, 101); if (i != l) r.push_back(*i); break; }
      case 6: break;
      case 7: r.push_back((int)std::distance(f, l)); break;
      case 8: while (f != l) r.push_back(*f++); break;
      case 9: if (f != l) { It g = f; r.push_back(*g); r.push_back(*f); ++f; while (f != l) ++f; } break;
    }
    return r;
  }
};
static void alg_body(const Vec& v) {
  int n = v[1]; Vec st(v.begin() + 2, v.begin() + 2 + n); Vec c = callables(st, n);
  { typedef signal<int(), Alg> S; Fix<S> f; { Alg a(v[0]); S s(a); f.sig.swap(s); } f.fill<int>(st, n, 0);
    for (int round = 1; round <= 3; ++round) {
      if (round == 3) f.sig.set_combiner(Alg(v[0]));
      ncalls = combs = 0; std::vector<int> r = f.sig(), want; Vec calls = c;
      switch (v[0]) { case 0: case 1: case 2: case 3: case 8: for (int i : c) want.push_back(100 + i); break; case 4: { int s = 0; for (int i : c) s += 100 + i; want.push_back(s); break; }
        case 5: { calls.clear(); for (int i : c) { calls.push_back(i); if (i == 1) { want.push_back(101); break; } } break; }
        case 6: calls.clear(); break; case 7: calls.clear(); want.push_back((int)c.size()); break; case 9: calls.clear(); if (!c.empty()) { calls.push_back(c[0]); want = {100 + c[0], 100 + c[0]}; } break; }
      if (combs != 1) mc::fail("combiner invoked %d times", combs);
      if (r != want) mc::fail("the emission's result is not the combiner's"); expect_calls(calls); expect_state(f, st, n, calls);
      Alg k = f.sig.combiner(); if (k.uses != (round == 3 ? 1 : round)) mc::fail("combiner state is not kept between emissions: %ld uses", k.uses); if (k.id != v[0]) mc::fail("combiner() returns another combiner");
    } }
}
static Reg r3("alg", alg_body);
static void families(const std::string&, bool th) {
  int NS = th ? 4 : 3, NL = th ? 6 : 5;
  for (int type = 0; type < 4; ++type) for (int n = 0; n <= NS; ++n) product(std::vector<int>(n, NST), [&](const Vec& st) {
    int len = NL - (type ? 2 : 0); if (n > 2) len -= 1;
    sequences(NACT, len, [&](const Vec& sc) { if (sc.size() < 2 && len > 1 && n) return; Vec v = {type, (int)(sc.size() & 1), (int)(sc.size() / 2 & 1), n}; v.insert(v.end(), st.begin(), st.end()); v.insert(v.end(), sc.begin(), sc.end()); run_case("scripted", v); });
  });
  for (int n = 0; n <= (th ? 6 : 5); ++n) product(std::vector<int>(n, NST), [&](const Vec& st) {
    for (int c = 0; c < 3; ++c) for (int t = 0; t < (c == 2 ? 1 : 6); ++t) { if (c == 0 && t == 4) continue; if (n > 4 && t != 0 && t != 3 && !th) continue; for (int k = 0; k < (n > 4 ? 1 : 4); ++k) { Vec v = {c, t, k & 1, k >> 1, n}; v.insert(v.end(), st.begin(), st.end()); run_case("library", v); } }
    bool thrower = false; for (int s : st) thrower |= s == T || s == X; if (!thrower) for (int a = 0; a < 10; ++a) { Vec v = {a, n}; v.insert(v.end(), st.begin(), st.end()); run_case("alg", v); }
  });
}
