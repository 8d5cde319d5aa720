// C22 and C23: deconstruct and deconstruct_ptr. Every class kind x way of obtaining the pointer x failure point x sequence of owner operations.
#include "unit.h"
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/make_shared.hpp>
#include <memory>
using boost::shared_ptr; using boost::weak_ptr; namespace s2 = boost::signals2;
// ---------------------------------------------------------------- observations
struct Cnt { int ctor, post, pre, dtor, nargs, nposts; const void* self; int args[10], pargs[10]; bool order_bad; int failctor, failpost; bool inpost; };
static Cnt c; struct Boom { int id; };
static shared_ptr<void>* stash; static bool stashing;   // a copy of the pointer which postconstruct keeps
static const int SENT = 4711;
static void on_ctor(const void* self, size_t align, int n) { ++c.ctor; c.self = self; c.nargs = n; const void* volatile q = self; asm volatile("" ::: "memory"); uintptr_t u = (uintptr_t)q; asm volatile("" : "+r"(u)); if (u % align) mc::fail("the object is not aligned for its type"); if (c.failctor) throw Boom{1}; }
static void on_post(const void* sp, const void* self, long use, int n) {
  if (c.ctor != 1 || c.dtor) mc::fail("postconstruct without a constructed object"); if (sp != c.self || self != c.self) mc::fail("postconstruct is given another object"); if (use < 1) mc::fail("the shared_ptr given to postconstruct does not own the object");
  ++c.post; c.nposts = n; if (c.pre) c.order_bad = true; if (c.failpost && c.post <= c.failpost) throw Boom{2}; }
static void on_pre(const void* p, int sent) { if (p != c.self) mc::fail("predestruct is given another object"); if (sent != SENT) mc::fail("predestruct runs on a dead object"); if (c.dtor) mc::fail("predestruct after the destructor"); ++c.pre; }
static void on_dtor(const void* p, int& sent) { if (p != c.self) mc::fail("another object is destroyed"); if (sent != SENT) mc::fail("the object is destroyed twice"); sent = 0; ++c.dtor; }
static int argval(int i) { return 70 + i; }
static void rec(int) {}
template <class A, class... R> static void rec(int i, A&& a, R&&... r) { c.args[i] = a; rec(i + 1, r...); }
static void prec_(int) {}
template <class A, class... R> static void prec_(int i, A&& a, R&&... r) { c.pargs[i] = a; prec_(i + 1, r...); }
// ---------------------------------------------------------------- classes
template <int N> struct Both {          // 0, 3 (over-aligned): adl_postconstruct and adl_predestruct
  alignas(N) int sent = SENT; char pad[N];
  template <class... A> explicit Both(A&&... a) { rec(0, a...); on_ctor(this, N, sizeof...(A)); } ~Both() { on_dtor(this, sent); }
  template <class T, class... A> friend void adl_postconstruct(const shared_ptr<T>& sp, Both* p, A&&... a) { if (stashing) *stash = shared_ptr<void>(sp, p); prec_(0, a...); on_post(sp.get(), p, sp.use_count(), sizeof...(A)); }
  friend void adl_predestruct(Both* p) { on_pre(p, p->sent); }
};
struct PostOnly { int sent = SENT; template <class... A> explicit PostOnly(A&&... a) { rec(0, a...); on_ctor(this, alignof(int), sizeof...(A)); } ~PostOnly() { on_dtor(this, sent); }
  template <class T, class... A> friend void adl_postconstruct(const shared_ptr<T>& sp, PostOnly* p, A&&... a) { prec_(0, a...); on_post(sp.get(), p, sp.use_count(), sizeof...(A)); } };
struct Sft : boost::enable_shared_from_this<Sft> { int sent = SENT; std::string s; template <class... A> explicit Sft(A&&... a): s(40, 'q') { rec(0, a...); on_ctor(this, alignof(std::string), sizeof...(A)); } ~Sft() { on_dtor(this, sent); }
  template <class T, class... A> friend void adl_postconstruct(const shared_ptr<T>& sp, Sft* p, A&&... a) { shared_ptr<Sft> q = p->shared_from_this(); if (q != sp || q.get() != p) mc::fail("shared_from_this() in postconstruct is another pointer"); prec_(0, a...); on_post(sp.get(), p, sp.use_count(), sizeof...(A)); }
  friend void adl_predestruct(Sft* p) { on_pre(p, p->sent); } };
struct Legacy : s2::postconstructible, s2::predestructible { int sent = SENT; template <class... A> explicit Legacy(A&&... a) { rec(0, a...); on_ctor(this, alignof(void*), sizeof...(A)); } ~Legacy() { on_dtor(this, sent); }
  void postconstruct() { on_post(this, this, 1, 0); } void predestruct() { on_pre(this, sent); } };
struct LPre : s2::predestructible { int sent = SENT; template <class... A> explicit LPre(A&&... a) { rec(0, a...); on_ctor(this, alignof(void*), sizeof...(A)); } ~LPre() { on_dtor(this, sent); } void predestruct() { on_pre(this, sent); } };
struct LPost : s2::postconstructible { int sent = SENT; template <class... A> explicit LPost(A&&... a) { rec(0, a...); on_ctor(this, alignof(void*), sizeof...(A)); } ~LPost() { on_dtor(this, sent); } void postconstruct() { on_post(this, this, 1, 0); } };
class Priv { int sent = SENT; friend class s2::deconstruct_access; template <class... A> explicit Priv(A&&... a) { rec(0, a...); on_ctor(this, alignof(int), sizeof...(A)); }
  template <class T, class... A> friend void adl_postconstruct(const shared_ptr<T>& sp, Priv* p, A&&... a) { prec_(0, a...); on_post(sp.get(), p, sp.use_count(), sizeof...(A)); } friend void adl_predestruct(Priv* p) { on_pre(p, p->sent); } public: ~Priv() { on_dtor(this, sent); } };
struct VB { virtual ~VB() {} int x = 5; };
struct Virt : virtual VB, boost::enable_shared_from_this<Virt> { int sent = SENT; template <class... A> explicit Virt(A&&... a) { rec(0, a...); on_ctor(this, alignof(void*), sizeof...(A)); } ~Virt() { on_dtor(this, sent); }
  template <class T, class... A> friend void adl_postconstruct(const shared_ptr<T>& sp, Virt* p, A&&... a) { if (p->shared_from_this() != sp) mc::fail("shared_from_this() in postconstruct is another pointer"); prec_(0, a...); on_post(sp.get(), p, sp.use_count(), sizeof...(A)); }
  friend void adl_predestruct(Virt* p) { on_pre(p, p->sent); } };
template <class T> struct Tr { enum { pre = 1, post = 1, pargs = 1 }; }; template <> struct Tr<PostOnly> { enum { pre = 0, post = 1, pargs = 1 }; };
template <> struct Tr<Legacy> { enum { pre = 1, post = 1, pargs = 0 }; }; template <> struct Tr<LPre> { enum { pre = 1, post = 0, pargs = 0 }; }; template <> struct Tr<LPost> { enum { pre = 0, post = 1, pargs = 0 }; };
template <class T> struct Tr<const T> : Tr<T> {};
// ---------------------------------------------------------------- calls with n arguments, n at run time
template <class T> static s2::postconstructor_invoker<T> mk(int n) {
  int a0 = argval(0); const int a1 = argval(1);
#define A(i) argval(i)
  switch (n) { case 0: return s2::deconstruct<T>(); case 1: return s2::deconstruct<T>(a0); case 2: return s2::deconstruct<T>(a0, a1); case 3: return s2::deconstruct<T>(a0, a1, A(2)); case 4: return s2::deconstruct<T>(a0, a1, A(2), A(3)); case 5: return s2::deconstruct<T>(a0, a1, A(2), A(3), A(4));
    case 6: return s2::deconstruct<T>(a0, a1, A(2), A(3), A(4), A(5)); case 7: return s2::deconstruct<T>(a0, a1, A(2), A(3), A(4), A(5), A(6)); case 8: return s2::deconstruct<T>(a0, a1, A(2), A(3), A(4), A(5), A(6), A(7)); default: return s2::deconstruct<T>(a0, a1, A(2), A(3), A(4), A(5), A(6), A(7), A(8)); }
}
template <class T> static typename std::enable_if<Tr<T>::pargs, shared_ptr<T> >::type post(const s2::postconstructor_invoker<T>& i, int n) {
  int a0 = argval(0); const int a1 = argval(1);
  switch (n) { case 0: return i.postconstruct(); case 1: return i.postconstruct(a0); case 2: return i.postconstruct(a0, a1); case 3: return i.postconstruct(a0, a1, A(2)); case 4: return i.postconstruct(a0, a1, A(2), A(3)); case 5: return i.postconstruct(a0, a1, A(2), A(3), A(4));
    case 6: return i.postconstruct(a0, a1, A(2), A(3), A(4), A(5)); case 7: return i.postconstruct(a0, a1, A(2), A(3), A(4), A(5), A(6)); case 8: return i.postconstruct(a0, a1, A(2), A(3), A(4), A(5), A(6), A(7)); default: return i.postconstruct(a0, a1, A(2), A(3), A(4), A(5), A(6), A(7), A(8)); }
}
template <class T> static typename std::enable_if<!Tr<T>::pargs, shared_ptr<T> >::type post(const s2::postconstructor_invoker<T>& i, int) { return i.postconstruct(); }
// ---------------------------------------------------------------- owners
enum OwnOp { O_COPY, O_RESET0, O_RESET1, O_MOVE, O_SWAP, O_WEAK, O_LOCK, O_ALIAS, O_DROPALIAS, O_ASSIGN, NOWN };
template <class T> struct Owners {
  shared_ptr<T> p[2]; weak_ptr<T> w; shared_ptr<void> alias; bool m[3] = {false, false, false}; bool wk = false; int extra = 0;
  int owners() const { return m[0] + m[1] + m[2] + extra; }
  void check(bool dead) { if (c.dtor != dead) mc::fail(dead ? "the object is not destroyed when its last owner goes" : "the object is destroyed while it is owned"); if (c.pre != (dead && Tr<T>::pre)) mc::fail("predestruct ran %d times", c.pre);
    if (wk && w.expired() != dead) mc::fail("weak pointer"); for (int i = 0; i < 2; ++i) { if ((p[i].get() != 0) != m[i]) mc::fail("owner %d", i); if (m[i] && p[i].use_count() != owners()) mc::fail("use_count is %ld instead of %d", p[i].use_count(), owners()); if (m[i] && (const void*)p[i].get() != c.self) mc::fail("the pointer is not the object's address"); } }
  void op(int o) { switch (o) {
    case O_COPY: p[1] = p[0]; m[1] = m[0]; break; case O_RESET0: p[0].reset(); m[0] = false; break; case O_RESET1: p[1].reset(); m[1] = false; break;
    case O_MOVE: p[1] = std::move(p[0]); m[1] = m[0]; m[0] = false; break; case O_SWAP: p[0].swap(p[1]); std::swap(m[0], m[1]); break;
    case O_WEAK: w = p[0]; wk = m[0]; break; case O_LOCK: p[1] = w.lock(); m[1] = wk && owners_before > 0; break;
    case O_ALIAS: alias = shared_ptr<void>(p[0], (void*)&c); m[2] = m[0]; break; case O_DROPALIAS: alias.reset(); m[2] = false; break; case O_ASSIGN: p[0] = p[1]; m[0] = m[1]; break; } }
  int owners_before = 0;
  void run(const Vec& v, size_t from) { bool dead = c.dtor > 0; check(dead); for (size_t i = from; i < v.size(); ++i) { owners_before = owners(); if (v[i] == O_LOCK && !wk) { p[1] = w.lock(); m[1] = false; } else op(v[i]); if (!owners() && c.ctor == 1 && !extra) dead = true; check(dead); } }
  void clear() { alias.reset(); p[0].reset(); p[1].reset(); m[0] = m[1] = m[2] = false; }
};
// v: class, nargs, mode, npost, failure, owner operations...   failure: 0 none, 1 ctor throws, 2 postconstruct throws, 3.. allocation k fails
enum Mode { IMPLICIT, POST0, POSTN, DISCARD, KEEP, KEEPTWICE, KEEPNONE };
// more than one request to one invoker. v: class, nargs, first request, npost, second request, 1: postconstruct keeps a copy of the pointer, number of failing postconstructs.  requests: 0 conversion, 1 postconstruct(), 2 postconstruct(args)
template <class T> static shared_ptr<T> request(const s2::postconstructor_invoker<T>& i, int how, int np) { if (how == 0) { const shared_ptr<T>& r = i; return r; } return how == 1 ? i.postconstruct() : post<T>(i, np); }
template <class T> static void run22r(const Vec& v) {
  memset(&c, 0, sizeof c); shared_ptr<void> st; stash = &st; stashing = v[5]; int np = Tr<T>::pargs ? v[3] : 0, fails = Tr<T>::post ? v[6] : 0; c.failpost = fails;
  { s2::postconstructor_invoker<T> inv(mk<T>(v[1])); int done = 0;
    for (int k = 0; k < 4; ++k) { int how = k % 2 ? v[4] : v[2]; bool thrown = false; shared_ptr<T> p; try { p = request<T>(inv, how, np); } catch (const Boom& b) { thrown = true; if (b.id != 2) mc::fail("another exception"); }
      if (c.dtor || c.pre) mc::fail("the object dies although the invoker owns it"); if (c.ctor != 1) mc::fail("constructed %d times", c.ctor);
      if (!Tr<T>::post) { if (thrown || c.post) mc::fail("?"); continue; }
      if (thrown != (k < fails)) mc::fail("postconstruct exception %s", thrown ? "invented" : "lost, the pointer is handed out without postconstruct");
      if (!thrown) { if (!done) { done = 1; if (c.post != fails + 1) mc::fail("the pointer is obtained before postconstruct succeeded"); int n = how == 2 ? np : 0; if (Tr<T>::pargs) { if (c.nposts != n) mc::fail("%d postconstruct arguments instead of %d", c.nposts, n); for (int i = 0; i < n; ++i) if (c.pargs[i] != argval(i)) mc::fail("postconstruct argument %d", i); } }
        if ((const void*)p.get() != c.self) mc::fail("the invoker returns another pointer"); }
      if (c.post != std::min(k + 1, fails) + done) mc::fail("postconstruct ran %d times", c.post); } }
  if (st) { if (c.dtor || c.pre) mc::fail("the object dies although postconstruct kept an owner"); st.reset(); }
  if (c.dtor != 1 || c.pre != (int)Tr<T>::pre) mc::fail("destroyed %d times, predestruct ran %d times", c.dtor, c.pre); stashing = false;
}
template <class T> static void run22(const Vec& v) {
  std::unique_ptr<char[]> shift(new char[1 + 16 * (v[1] % 4)]);     // the heap gives out other addresses
  int na = v[1], mode = v[2], np = Tr<T>::pargs ? v[3] : 0, fail = v[4]; memset(&c, 0, sizeof c); c.failctor = fail == 1; c.failpost = fail == 2 && Tr<T>::post ? 100 : 0;
  { Owners<T> o; bool ctorfail = false, postfail = false, allocfail = false; size_t blocks = mc::live_blocks();
    auto args_ok = [&] { if (c.nargs != na) mc::fail("%d constructor arguments instead of %d", c.nargs, na); for (int i = 0; i < na; ++i) if (c.args[i] != argval(i)) mc::fail("constructor argument %d", i); };
    auto post_ok = [&](int n, int times) { if (c.post != (Tr<T>::post ? times : 0)) mc::fail("postconstruct ran %d times", c.post); if (times && Tr<T>::pargs) { if (c.nposts != n) mc::fail("%d postconstruct arguments instead of %d", c.nposts, n); for (int i = 0; i < n; ++i) if (c.pargs[i] != argval(i)) mc::fail("postconstruct argument %d", i); } };
    if (fail >= 3) mc::fault_arm(fail - 2);
    try {
      if (mode == DISCARD) { mk<T>(na); }
      else if (mode == IMPLICIT) { o.p[0] = mk<T>(na); o.m[0] = true; post_ok(0, 1); }
      else if (mode == POST0) { o.p[0] = mk<T>(na).postconstruct(); o.m[0] = true; post_ok(0, 1); }
      else if (mode == POSTN) { o.p[0] = post<T>(mk<T>(na), np); o.m[0] = true; post_ok(np, 1); }
      else {
        s2::postconstructor_invoker<T> inv(mk<T>(na)); mc::fault_disarm(); args_ok(); post_ok(0, 0); if (c.dtor || c.pre) mc::fail("the object dies early");
        if (!mc::fault_fired() && (mc::live_blocks() - blocks) < 1) mc::fail("no allocation");
        if (mode == KEEP) { const shared_ptr<T>& r = inv; o.p[0] = r; o.m[0] = true; o.extra = 1; post_ok(0, 1); o.run(v, 5); o.extra = 0; }
        if (mode == KEEPTWICE) { o.p[0] = post<T>(inv, np); o.m[0] = true; shared_ptr<T> q = inv; shared_ptr<T> r = inv.postconstruct(); if (q != o.p[0] || r != q) mc::fail("the invoker returns another pointer"); post_ok(np, 1); }
        // KEEPNONE: the invoker is destroyed without having been asked for the pointer
      }
    } catch (const Boom& b) { if (b.id == 1) ctorfail = true; else postfail = true; } catch (const std::bad_alloc&) { allocfail = true; }
    mc::fault_disarm();
    if (fail >= 3) { if (allocfail != mc::fault_fired()) mc::fail("bad_alloc %s", allocfail ? "invented" : "lost"); }
    else if (allocfail) mc::fail("bad_alloc");
    if (ctorfail != (fail == 1)) mc::fail("constructor exception %s", ctorfail ? "invented" : "lost");
    bool wantpost = c.failpost && mode != DISCARD && mode != KEEPNONE; if (postfail != wantpost) mc::fail("postconstruct exception %s", postfail ? "invented" : "lost");
    if (ctorfail) { if (c.post || c.pre || c.dtor) mc::fail("a failed construction is followed by post- or predestruction"); }
    else if (allocfail && !c.ctor) { if (c.post || c.pre || c.dtor) mc::fail("postconstruct, predestruct or destructor without a construction"); }
    else {
      args_ok(); if (c.ctor != 1) mc::fail("%d objects constructed", c.ctor);
      if (mode == DISCARD || mode == KEEPNONE || postfail || (allocfail && !o.m[0])) { if (mode != DISCARD && !postfail && mode != KEEPNONE && !allocfail) mc::fail("?"); if (c.dtor != 1) mc::fail("an object nobody owns is not destroyed"); if (c.pre != (int)Tr<T>::pre) mc::fail("predestruct ran %d times", c.pre); if (mode == DISCARD || mode == KEEPNONE) post_ok(0, 0); }
      else { if (mode == KEEP) { if (!o.owners() != (c.dtor == 1)) mc::fail("the object outlives or misses its last owner"); } else { if (!fail && mc::live_blocks() - blocks != (std::is_same<T, Sft>::value ? 2u : 1u)) mc::fail("object and reference count are allocated separately"); o.run(v, 5); } o.clear(); if (c.dtor != 1 || c.pre != (int)Tr<T>::pre) mc::fail("destroyed %d times, predestruct ran %d times", c.dtor, c.pre); }
    }
    if (c.order_bad) mc::fail("postconstruct after predestruct");
  }
}
enum { NCLS = 10 };
static int cls_pargs(int k) { return k < 6 || k == 9; }
static void decon_body(const Vec& v) { switch (v[0]) { case 0: run22<Both<8> >(v); break; case 1: run22<PostOnly>(v); break; case 2: run22<Sft>(v); break; case 3: run22<Both<64> >(v); break; case 4: run22<const Both<8> >(v); break; case 5: run22<Priv>(v); break; case 6: run22<Legacy>(v); break; case 7: run22<LPre>(v); break; case 8: run22<LPost>(v); break; case 9: run22<Virt>(v); break; } }
static void deconr_body(const Vec& v) { switch (v[0]) { case 0: run22r<Both<8> >(v); break; case 1: run22r<PostOnly>(v); break; case 2: run22r<Sft>(v); break; case 3: run22r<Both<64> >(v); break; case 4: run22r<const Both<8> >(v); break; case 5: run22r<Priv>(v); break; case 6: run22r<Legacy>(v); break; case 7: run22r<LPre>(v); break; case 8: run22r<LPost>(v); break; case 9: run22r<Virt>(v); break; } }
static Reg r1("decon", decon_body), r1r("again", deconr_body);
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
// ---- forwarding of lvalues, rvalues and move-only arguments
#ifdef REDUCED             // the library under test does not compile with move-only arguments: judge the rest
typedef std::shared_ptr<int> UP;
#else
typedef std::unique_ptr<int> UP;
#endif
struct Fwd { int kind[4]; const void* addr[4]; UP up; int sent = SENT; static int cat(int&) { return 1; } static int cat(const int&) { return 2; } static int cat(int&&) { return 3; }
  template <class A, class B, class C> Fwd(A&& a, B&& b, C&& d, UP u): up(std::move(u)) { kind[0] = cat(std::forward<A>(a)); kind[1] = cat(std::forward<B>(b)); kind[2] = cat(std::forward<C>(d)); addr[0] = &a; addr[1] = &b; addr[2] = &d; }
  template <class T, class A, class B, class C> friend void adl_postconstruct(const shared_ptr<T>&, Fwd* p, A&& a, B&& b, C&& d, UP u) { if (cat(std::forward<A>(a)) != p->kind[0] || cat(std::forward<B>(b)) != p->kind[1] || cat(std::forward<C>(d)) != p->kind[2]) mc::fail("postconstruct does not forward the value category"); if ((const void*)&a != p->addr[0] || (const void*)&b != p->addr[1] || (const void*)&d != p->addr[2]) mc::fail("postconstruct copies its arguments"); if (!u || *u != 9) mc::fail("move-only argument"); } };
static void fwd_body(const Vec& v) {
  for (int k = 0; k < 27; ++k) { int a = 1; const int b = 2; int d = 3; (void)v; int w[3] = {k % 3, k / 3 % 3, k / 9}; const void* ad[3];
    auto go = [&](auto&& x, auto&& y, auto&& z) { ad[0] = &x; ad[1] = &y; ad[2] = &z; shared_ptr<Fwd> p = s2::deconstruct<Fwd>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), std::forward<decltype(z)>(z), UP(new int(9))).postconstruct(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), std::forward<decltype(z)>(z), UP(new int(9)));
      for (int i = 0; i < 3; ++i) { if (p->kind[i] != w[i] + 1) mc::fail("constructor argument %d is forwarded with another value category", i); if (p->addr[i] != ad[i]) mc::fail("constructor argument %d is copied", i); } if (!p->up || *p->up != 9) mc::fail("move-only argument"); };
    auto third = [&](auto&& x, auto&& y) { if (w[2] == 0) go(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), d); else if (w[2] == 1) go(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), b); else go(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), 5); };
    auto second = [&](auto&& x) { if (w[1] == 0) third(std::forward<decltype(x)>(x), d); else if (w[1] == 1) third(std::forward<decltype(x)>(x), b); else third(std::forward<decltype(x)>(x), 6); };
    if (w[0] == 0) second(a); else if (w[0] == 1) second(b); else second(7); }
}
static Reg r2("forward", fwd_body);
#endif
// ---- the last owners released concurrently. v: class, ops of thread 0, ops of thread 1
static shared_ptr<Both<8> >* cp; static weak_ptr<Both<8> >* cw; static shared_ptr<Legacy>* cl;
static void conc_body(const Vec& v) { memset(&c, 0, sizeof c); cp = new shared_ptr<Both<8> >[2]; cw = new weak_ptr<Both<8> >[2]; cl = new shared_ptr<Legacy>[2]; if (v[0]) { cl[0] = s2::deconstruct_ptr(new Legacy(1)); cl[1] = cl[0]; } else { cp[0] = s2::deconstruct<Both<8> >(1); cp[1] = cp[0]; cw[0] = cw[1] = cp[0]; } }
static void conc_thread(const Vec& v, int i) { if (v[0]) { cl[i].reset(); return; } if (v[1 + i] == 1) { shared_ptr<Both<8> > q = cp[i]; cp[i].reset(); } else if (v[1 + i] == 2) { cp[i].reset(); shared_ptr<Both<8> > q = cw[i].lock(); if (q && (q->sent != SENT || q.get() != c.self)) mc::fail("a locked object is dead"); if (q && c.pre) mc::fail("an owned object is predestructed"); } else cp[i].reset(); }
static void conc_finish(const Vec&) { if (c.pre != 1 || c.dtor != 1 || c.post != 1) mc::fail("postconstruct %d, predestruct %d, destructor %d times", c.post, c.pre, c.dtor); delete[] cp; delete[] cw; delete[] cl; }
static Reg r3("release", conc_body, 2, conc_thread, conc_finish);
// ---------------------------------------------------------------- deconstruct_ptr. v: class, deleter, failure, const, owner operations...
struct QNone { int sent = SENT; explicit QNone(int) { on_ctor(this, 1, 0); } virtual ~QNone() { on_dtor(this, sent); } };
struct QPost : s2::postconstructible { int sent = SENT; explicit QPost(int) { on_ctor(this, 1, 0); } ~QPost() { on_dtor(this, sent); } void postconstruct() { on_post(this, this, 1, 0); } };
struct QPre : s2::predestructible { int sent = SENT; explicit QPre(int) { on_ctor(this, 1, 0); } ~QPre() { on_dtor(this, sent); } void predestruct() { on_pre(this, sent); } };
struct QBoth : boost::enable_shared_from_this<QBoth>, s2::postconstructible, s2::predestructible { int sent = SENT; explicit QBoth(int) { on_ctor(this, 1, 0); } ~QBoth() { on_dtor(this, sent); } void postconstruct() { shared_ptr<QBoth> q = shared_from_this(); on_post(q.get(), this, q.use_count() - 1, 0); } void predestruct() { if (weak_from_this().lock()) mc::fail("predestruct while the object is owned"); on_pre(this, sent); } };
struct QVirt : virtual VB, virtual s2::predestructible, virtual s2::postconstructible { int sent = SENT; explicit QVirt(int) { on_ctor(this, 1, 0); } ~QVirt() { on_dtor(this, sent); } void postconstruct() { on_post(this, this, 1, 0); } void predestruct() { on_pre(this, sent); } };
struct QBase : s2::predestructible, s2::postconstructible { int sent = SENT; virtual ~QBase() {} virtual void postconstruct() = 0; virtual void predestruct() = 0; };
struct QDer : QBase { explicit QDer(int) { on_ctor(static_cast<QBase*>(this), 1, 0); } ~QDer() { on_dtor(static_cast<QBase*>(this), sent); } void postconstruct() { on_post(static_cast<QBase*>(this), static_cast<QBase*>(this), 1, 0); } void predestruct() { on_pre(static_cast<QBase*>(this), sent); } };
template <> struct Tr<QNone> { enum { pre = 0, post = 0 }; }; template <> struct Tr<QPost> { enum { pre = 0, post = 1 }; }; template <> struct Tr<QPre> { enum { pre = 1, post = 0 }; };
static int deleted;
template <class T> struct Del { void operator()(T* p) const { ++deleted; delete p; } };
template <class T> struct PreDel { s2::predestructing_deleter<T> d; void operator()(T* p) const { ++deleted; d(p); } };
template <class T, class D> static void own23(const Vec& v, D* obj, bool null) {
  typedef typename std::remove_const<T>::type U; int del = v[1], fail = v[2]; deleted = 0; c.failpost = fail == 2 && Tr<U>::post; Owners<T> o; bool postfail = false, allocfail = false; T* raw = null ? 0 : obj; bool libpre = del != 1 && Tr<U>::pre && !null;
  if (fail >= 3) mc::fault_arm(fail - 2);
  try { if (del == 0) o.p[0] = s2::deconstruct_ptr(raw); else if (del == 1) o.p[0] = s2::deconstruct_ptr(raw, Del<T>()); else o.p[0] = s2::deconstruct_ptr(raw, PreDel<T>()); o.m[0] = !null; }
  catch (const Boom&) { postfail = true; } catch (const std::bad_alloc&) { allocfail = true; }
  mc::fault_disarm(); if (allocfail != (fail >= 3 && mc::fault_fired())) mc::fail("bad_alloc %s", allocfail ? "invented" : "lost");
  if (null) { if (c.post || c.pre || c.dtor || o.p[0]) mc::fail("a null pointer is post- or predestructed"); if (o.p[0].use_count() != 1) mc::fail("a null pointer does not come with the ownership that shared_ptr(pointer, deleter) has"); o.p[1] = o.p[0]; o.p[0].reset(); if (deleted) mc::fail("the deleter runs while an owner is left"); o.p[1].reset(); if (deleted != (del != 0)) mc::fail("the given deleter ran %d times", deleted); if (c.post || c.pre || c.dtor) mc::fail("a null pointer is post- or predestructed"); return; }
  if (postfail != (c.failpost && !allocfail)) mc::fail("postconstruct exception %s", postfail ? "invented" : "lost");
  if (c.post != (Tr<U>::post && !allocfail)) mc::fail("postconstruct ran %d times", c.post);
  if (postfail || allocfail) { if (c.dtor != 1) mc::fail("after a failure the object is not deleted"); if (c.pre != libpre) mc::fail("after a failure predestruct ran %d times", c.pre); return; }
  // owner operations; predestruct is expected from the library only where the deleter is its own
  struct Sub { static void check(Owners<T>& o, bool dead, bool libpre) { if (c.dtor != dead) mc::fail(dead ? "the object is not destroyed when its last owner goes" : "the object is destroyed while it is owned"); if (c.pre != (dead && libpre)) mc::fail("predestruct ran %d times", c.pre); for (int i = 0; i < 2; ++i) { if ((o.p[i].get() != 0) != o.m[i]) mc::fail("owner %d", i); if (o.m[i] && o.p[i].use_count() != o.owners()) mc::fail("use_count"); } } };
  bool dead = false; Sub::check(o, dead, libpre);
  for (size_t i = 4; i < v.size(); ++i) { o.owners_before = o.owners(); if (v[i] == O_LOCK && !o.wk) { o.p[1] = o.w.lock(); o.m[1] = false; } else o.op(v[i]); if (!o.owners()) dead = true; Sub::check(o, dead, libpre); }
  o.clear(); Sub::check(o, true, libpre); if (del && deleted != 1) mc::fail("the given deleter ran %d times", deleted); if (c.post != Tr<U>::post) mc::fail("postconstruct ran %d times", c.post);
}
template <class T, class D> static void run23(const Vec& v) {
  memset(&c, 0, sizeof c); bool null = v[2] == 1 && v[1] != 2; D* obj = null ? 0 : new D(1);
  if (v[3]) own23<const T, D>(v, obj, null); else own23<T, D>(v, obj, null);
}
template <class T> struct Del<const T> { void operator()(const T* p) const { ++deleted; delete p; } };
static void dptr_body(const Vec& v) { switch (v[0]) { case 0: run23<QNone, QNone>(v); break; case 1: run23<QPost, QPost>(v); break; case 2: run23<QPre, QPre>(v); break; case 3: run23<QBoth, QBoth>(v); break; case 4: run23<QVirt, QVirt>(v); break; case 5: run23<QBase, QDer>(v); break; } }
static Reg r4("dptr", dptr_body);
static void families(const std::string& prof, bool th) {
  if (prof == "C22") {
    for (int k = 0; k < NCLS; ++k) for (int na = 0; na <= 9; ++na) for (int mode = 0; mode < 7; ++mode) for (int np = 0; np <= (cls_pargs(k) && (mode == POSTN || mode == KEEPTWICE) ? 9 : 0); ++np)
      for (int fail = 0; fail < 6; ++fail) {
        bool owned = !fail && mode != DISCARD && mode != KEEPNONE; int depth = !owned ? 0 : na == 2 && np <= 1 ? (th ? 5 : 4) : na == 0 || na == 5 ? (np < 2 ? (th ? 3 : 2) : 1) : 1;
        sequences(NOWN, depth, [&](const Vec& s) { Vec v = {k, na, mode, np, fail}; v.insert(v.end(), s.begin(), s.end()); run_case("decon", v); });
      }
    for (int k = 0; k < NCLS; ++k) for (int na = 0; na <= 9; na += 3) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int np = 0; np <= (cls_pargs(k) ? 9 : 0); ++np) for (int st = 0; st <= (k == 0 || k == 3); ++st) for (int f = 0; f < 3; ++f) run_case("again", {k, na, a, np, b, st, f});
#ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
    run_case("forward", {0});
#endif
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) run_case("release", {0, a, b});
  } else {
    for (int k = 0; k < 6; ++k) for (int del = 0; del < 3; ++del) for (int cst = 0; cst < 2; ++cst) for (int fail = 0; fail < 6; ++fail)
      sequences(NOWN, fail ? 0 : (th ? 6 : 4), [&](const Vec& s) { Vec v = {k, del, fail, cst}; v.insert(v.end(), s.begin(), s.end()); run_case("dptr", v); });
    run_case("release", {1, 0, 0});
  }
}
