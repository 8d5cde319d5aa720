// C11: arguments, results and the own connection, for arity ARITY and every parameter kind in every position.
#ifndef ARITY
#define ARITY 2
#endif
#include "unit.h"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <memory>
#include <tuple>
#include <utility>
using namespace boost::signals2;
#ifdef VOIDSIG
typedef void RT;           // the same with signals and slots that return nothing
#else
typedef int RT;
#endif
enum Color { C0 = 1000 };
struct Big { int v; std::string s; char pad[64]; Big(int v = 0): v(v), s(50, char('a' + v % 26)) { memset(pad, v, sizeof pad); } bool operator==(const Big& o) const { return v == o.v && s == o.s && !memcmp(pad, o.pad, sizeof pad); } };
// parameter kinds
template <int K> struct Kind;
template <> struct Kind<0> { typedef int P; typedef int V; static V make(int i) { return 1000 + i; } static void touch(V&) {} };
template <> struct Kind<1> { typedef const std::string& P; typedef std::string V; static V make(int i) { return std::string(30, char('A' + i)); } };
template <> struct Kind<2> { typedef std::string& P; typedef std::string V; static V make(int i) { return std::string(31, char('a' + i)); } };
template <> struct Kind<3> { typedef int* P; typedef int* V; static V make(int i) { static int a[16]; return a + i; } };
template <> struct Kind<4> { typedef Big P; typedef Big V; static V make(int i) { return Big(i + 1); } };
template <> struct Kind<5> { typedef std::shared_ptr<int> P; typedef std::shared_ptr<int> V; static V make(int i) { return std::make_shared<int>(i); } };
template <> struct Kind<6> { typedef const Big& P; typedef Big V; static V make(int i) { return Big(i + 11); } };
template <> struct Kind<7> { typedef Color P; typedef Color V; static V make(int i) { return Color(C0 + i); } };
template <> struct Kind<8> { typedef const char* P; typedef const char* V; static V make(int i) { static const char* t = "abcdefghijklmnop"; return t + i; } };
template <> struct Kind<9> { typedef double P; typedef double V; static V make(int i) { return i + 0.5; } };
enum { NKINDS = 10 };
template <int ROT, class Seq> struct Pack;
template <int ROT, size_t... I> struct Pack<ROT, std::index_sequence<I...> > {
  template <size_t J> using KD = Kind<(J * 3 + ROT) % NKINDS>;
  typedef RT Signature(typename KD<I>::P...);
  typedef signal<Signature, last_value<RT> > Sig; typedef signal<Signature, optional_last_value<RT> > OSig;
  typedef std::tuple<typename KD<I>::V...> Vals;
  static Vals* vals; static int ncalled, ids[16]; static connection cons[16];
  static Vals make() { return Vals(KD<I>::make((int)I)...); }
  // mutable references are changed by every slot: the caller and later slots must see it
  template <size_t J> static void one(typename KD<J>::P x, int id) {
    typedef typename KD<J>::P P; auto& want = std::get<J>(*vals);
    if (!(x == want)) mc::fail("argument %d of slot %d differs from the one passed", (int)J, id);
    if (std::is_reference<P>::value && (const void*)&x != (const void*)&want) mc::fail("reference argument %d of slot %d refers to a copy", (int)J, id);
    if (!std::is_reference<P>::value && !std::is_pointer<P>::value && (const void*)&x == (const void*)&want) mc::fail("value argument %d is not a copy", (int)J);
    touch<J>(x);
  }
  template <size_t J> static typename std::enable_if<std::is_same<typename KD<J>::P, std::string&>::value>::type touch(std::string& x) { x += '!'; }
  template <size_t J> static typename std::enable_if<!std::is_same<typename KD<J>::P, std::string&>::value>::type touch(typename KD<J>::P&) {}
  static RT slot(int id, typename KD<I>::P... a) { if (ncalled < 16) ids[ncalled] = id; ++ncalled; int d[] = {0, (one<I>(a, id), 0)...}; (void)d; return RT(500 + id); }
  struct F { int id; RT operator()(typename KD<I>::P... a) const { return slot(id, a...); } };
  struct X { int id, act; RT operator()(const connection& c, typename KD<I>::P... a) const {
    if (!(c == cons[id]) || c != cons[id]) mc::fail("extended slot %d received a connection that is not the one connect_extended returned", id);
    if (!c.connected() || c.blocked()) mc::fail("the connection of a running extended slot is not connected");
    slot(id, a...); if (act == 1) c.disconnect(); return RT(500 + id); } };
  static RT fp0(typename KD<I>::P... a) { return slot(0, a...); }
  static RT fp1(typename KD<I>::P... a) { return slot(1, a...); }
  static RT fp2(typename KD<I>::P... a) { return slot(2, a...); }
  static RT fp3(typename KD<I>::P... a) { return slot(3, a...); }
  struct Obj { int id; RT mem(typename KD<I>::P... a) { return slot(id, a...); } };
  static int bindf(int id, typename KD<I>::P... a) { slot(id, a...); return 500 + id; }
  template <size_t J> static boost::arg<(int)J + 1> ph() { return boost::arg<(int)J + 1>(); }
  // v: slots (kind, or 20 + kind when connected to a group), 2 slots act
  static void run(const Vec& v) {
    static const int NK = 9; (void)NK;
    { Sig sig; Sig inner; OSig osig; Vals store = make(); vals = &store; Obj objs[4]; std::vector<F> fs(4); std::vector<bool> dead(v.size() - 1, false); ncalled = 0;
      int n = (int)v.size() - 1;
      for (int i = 0; i < n; ++i) {
        int k = v[i + 1]; typedef typename Sig::slot_type S; typedef typename Sig::extended_slot_type E; objs[i].id = i; fs[i].id = i; bool g = v[0] & 1;
        auto con = [&](const S& s) { return g ? sig.connect(0, s) : sig.connect(s); };
        auto conx = [&](const E& s) { return g ? sig.connect_extended(0, s) : sig.connect_extended(s); };
        switch (k) {
          case 0: cons[i] = con(S(F{i})); break;
          case 1: { X x = {i, 0}; cons[i] = conx(E(x)); break; }
          case 2: { X x = {i, 1}; cons[i] = conx(E(x)); break; }
          case 3: cons[i] = con(S(i == 0 ? &fp0 : i == 1 ? &fp1 : i == 2 ? &fp2 : &fp3)); break;
#if ARITY < 9
          case 4: cons[i] = con(S(&Obj::mem, &objs[i], ph<I>()...)); break;
          case 5: cons[i] = con(S(boost::bind(&bindf, i, ph<I>()...))); break;
#else
          case 4: case 5: cons[i] = con(S(F{i})); break;
#endif
          case 6: { inner.disconnect_all_slots(); inner.connect(F{i}); cons[i] = con(S(inner)); break; }
          case 7: cons[i] = con(S(boost::ref(fs[i]))); break;
          case 8: { boost::signals2::slot<Signature, std::function<Signature> > t{F{i}}; cons[i] = con(S(t)); break; }
        }
        osig.connect(typename OSig::slot_type(F{i}));
      }
      int lastinner = -1; for (int i = 0; i < n; ++i) if (v[i + 1] == 6) lastinner = i;       // one inner signal: it calls the slot connected last
      for (int round = 0; round < 3; ++round) {
        std::vector<int> want; for (int i = 0; i < n; ++i) if (!dead[i]) want.push_back(v[i + 1] == 6 ? lastinner : i);
        ncalled = 0; int r = -1; bool none = false;
        try { r = round == 1 ? call(const_cast<const Sig&>(sig), store) : call(sig, store); } catch (const no_slots_error&) { none = true; }
        if (ncalled != (int)want.size()) mc::fail("%d slots called instead of %d", ncalled, (int)want.size());
        for (int i = 0; i < ncalled; ++i) if (ids[i] != want[i]) mc::fail("slot %d called instead of %d", ids[i], want[i]);
        if (none != want.empty() || (!none && r != 500 + want.back())) mc::fail("result %d instead of the last slot's", r);
        for (int i = 0; i < n; ++i) if (v[i + 1] == 2) dead[i] = true;
        for (int i = 0; i < n; ++i) if (cons[i].connected() == dead[i]) mc::fail("disconnecting through its own connection affected slot %d", i);
        if (round == 0 && (v[0] & 2)) { cons[0].disconnect(); dead[0] = true; F f = {0}; sig.connect(0, typename Sig::slot_type(f)).disconnect(); }   // the list is edited
        if (round == 1 && (v[0] & 4) && n > 1) { shared_connection_block b(cons[1]); ncalled = 0; bool none2 = false; try { call(sig, store); } catch (const no_slots_error&) { none2 = true; } (void)none2; int live = 0; for (int i = 0; i < n; ++i) live += !dead[i] && i != 1; if (ncalled != live) mc::fail("blocking one slot changed others"); }
      }
      ncalled = 0; boost::optional<int> o; try { o = call(osig, store); } catch (const no_slots_error&) {} if (ncalled != n || (n ? !o || *o != 500 + n - 1 : !!o)) mc::fail("optional result is wrong");
      typename Sig::slot_type direct(F{3}); ncalled = 0; if (call(direct, store) != 503 || ncalled != 1) mc::fail("direct call of a slot");
      for (auto& c : cons) c = connection(); }
    vals = 0;
  }
#ifdef VOIDSIG
  template <class S> static int call(S& s, Vals& st) { s(std::get<I>(st)...); if (!ncalled) throw no_slots_error(); return 500 + ids[ncalled - 1]; }
#else
  template <class S> static auto call(S& s, Vals& st) -> decltype(s(std::get<I>(st)...)) { return s(std::get<I>(st)...); }
#endif
};
template <int R, size_t... I> typename Pack<R, std::index_sequence<I...> >::Vals* Pack<R, std::index_sequence<I...> >::vals;
template <int R, size_t... I> int Pack<R, std::index_sequence<I...> >::ncalled;
template <int R, size_t... I> int Pack<R, std::index_sequence<I...> >::ids[16];
template <int R, size_t... I> connection Pack<R, std::index_sequence<I...> >::cons[16];
#define P(r) Pack<r, std::make_index_sequence<ARITY> >
template <class T> static void body(const Vec& v) { T::run(v); }
static Reg r0("rot0", body<P(0)>), r1("rot2", body<P(2)>), r2("rot4", body<P(4)>), r3("rot6", body<P(6)>), r4("rot8", body<P(8)>);
static void families(const std::string&, bool th) {
  for (auto& c : cases()) for (int fl = 0; fl < 8; ++fl) for (int n = 0; n <= (th ? 4 : 3); ++n) product(std::vector<int>(n, 9), [&](const Vec& k) {
    Vec v = {fl}; v.insert(v.end(), k.begin(), k.end()); if ((fl & 2) && !n) return; run_case(c.name, v); });
}
