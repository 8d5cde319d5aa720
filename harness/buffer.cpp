// C27: detail::auto_buffer (the container of locked objects) against std::vector: all operation sequences on two buffers.
#define UNIT_STEPS 2000000000ull
#include "unit.h"
#include <boost/signals2.hpp>
#include <vector>
#include <list>
#include <algorithm>
using namespace boost::signals2::detail;
static long live = 0;
struct Obj {      // knows its own address: a bitwise copy, a missing or a second construction or destruction shows
  int v; Obj* self; int* heap;
  Obj(): v(0), self(this), heap(0) { mc::fault_point(); heap = new int(0); ++live; }
  Obj(int i): v(i), self(this), heap(new int(i)) { ++live; }
  Obj(const Obj& o): v(o.v), self(this), heap(0) { o.ok(); mc::fault_point(); heap = new int(o.v); ++live; }
  Obj& operator=(const Obj& o) { ok(); o.ok(); mc::fault_point(); v = o.v; *heap = v; return *this; }
  ~Obj() { ok(); self = 0; delete heap; --live; }
  void ok() const { if (self != this || *heap != v) mc::fail("an element is used that was not constructed, was destroyed or was copied bytewise"); }
};
struct Pod { int v; long pad[5]; Pod() {} Pod(int i): v(i) { for (long& p : pad) p = i; } };       // trivially copyable, large
static int val(int x) { return x; } static int val(const Obj& x) { x.ok(); return x.v; } static int val(const Pod& x) { for (long p : x.pad) if (p != x.v) mc::fail("an element is torn"); return x.v; }
static bool operator==(const Obj& a, const Obj& b) { return val(a) == val(b); } static bool operator<(const Obj& a, const Obj& b) { return val(a) < val(b); }
static bool operator==(const Pod& a, const Pod& b) { return val(a) == val(b); } static bool operator<(const Pod& a, const Pod& b) { return val(a) < val(b); }
enum Op { PUSH, PUSHR, PUSHE, POP, POPN, CLEAR, ERASE0, ERASEM, ERASEL, ERASER, ERASENONE, RESERVE, RESERVEX, SHRINK, SWAP, SWAPF, ASSIGN, ASSIGNB, ASELF, COPY, RANGE, FILL, CAP, INS0, INSM, INSE, INSN, INSR, INSRE, INSL, GROW, PUSHL, RANGEL, INSLIST, INSINPUT, PUSHN, ALLOC, NOPS };
template <class T> static void setv(T& t, int v) { t = T(v); }
static const void* owner_of[8192]; static int owner_id[8192]; static size_t owners;      // which allocator a block came from
template <class T> struct SA {      // an allocator with state: a block must go back to an equal allocator, with its size
  typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  template <class U> struct rebind { typedef SA<U> other; };
  int id; explicit SA(int i = 0): id(i) {} template <class U> SA(const SA<U>& o): id(o.id) {}
  T* allocate(size_t n) { T* p = std::allocator<T>().allocate(n); owner_of[owners] = p; owner_id[owners++] = id; return p; }
  void deallocate(T* p, size_t n) { for (size_t i = owners; i--; ) if (owner_of[i] == p) { if (owner_id[i] != id) mc::fail("a block of allocator %d is returned to allocator %d", owner_id[i], id); owner_of[i] = owner_of[--owners]; owner_id[i] = owner_id[owners]; std::allocator<T>().deallocate(p, n); return; } mc::fail("a block is returned that no allocator gave"); }
  bool operator==(const SA& o) const { return id == o.id; } bool operator!=(const SA& o) const { return id != o.id; }
};
template <class T> struct In {      // an input iterator: one pass, no more
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  const T* p; const T** pos; In(const T* x, const T** q): p(x), pos(q) {}
  const T& operator*() const { if (*pos != p) mc::fail("an input iterator is read twice or skipped"); return *p; } In& operator++() { if (*pos != p) mc::fail("an input iterator is advanced twice"); *pos = ++p; return *this; } In operator++(int) { In r(*this); ++*this; return r; }
  bool operator==(const In& o) const { return p == o.p; } bool operator!=(const In& o) const { return p != o.p; }
};
template <class T, unsigned N, class A = std::allocator<T> > struct Run {
  typedef auto_buffer<T, store_n_objects<N>, default_grow_policy, A> Buf; typedef std::vector<int> Mod;
  static A al(int i) { if constexpr (std::is_same<A, SA<T> >::value) return A(i); else { (void)i; return A(); } }
  Buf a, b; Mod ma, mb; int next; Run(): a(typename Buf::size_type(0), al(1)), b(typename Buf::size_type(0), al(2)), next(0) {}
  static void same(const char* n, const Buf& x, const Mod& m) {
    if (!x.is_valid()) mc::fail("%s: is_valid() is false", n);
    if (x.size() != m.size() || x.empty() != m.empty() || x.capacity() < m.size() || x.capacity() < N || x.full() != (m.size() == x.capacity())) mc::fail("%s: size %zu, capacity %zu, expected size %zu", n, (size_t)x.size(), (size_t)x.capacity(), m.size());
    size_t i = 0; for (typename Buf::const_iterator p = x.begin(); p != x.end(); ++p, ++i) if (val(*p) != m[i]) mc::fail("%s: element %zu is %d, expected %d", n, i, val(*p), m[i]);
    i = m.size(); for (typename Buf::const_reverse_iterator p = x.rbegin(); p != x.rend(); ++p) if (val(*p) != m[--i]) mc::fail("%s: reverse iteration", n);
    if (!m.empty() && (val(x.front()) != m.front() || val(x.back()) != m.back() || val(x[m.size() / 2]) != m[m.size() / 2] || val(x.data()[0]) != m[0])) mc::fail("%s: front, back, [] or data", n);
  }
  void check() {
    same("first", a, ma); same("second", b, mb);
    if ((a == b) != (ma == mb) || (a != b) != (ma != mb) || (a < b) != (ma < mb) || (a > b) != (ma > mb) || (a <= b) != (ma <= mb) || (a >= b) != (ma >= mb)) mc::fail("comparison");
    if (std::is_same<T, Obj>::value && live != (long)(ma.size() + mb.size())) mc::fail("%ld elements exist, expected %zu", live, ma.size() + mb.size());
  }
  std::vector<T> some(int n) { std::vector<T> r; r.reserve(n); for (int i = 0; i < n; ++i) r.push_back(T(++next)); return r; }
  static Mod mod(const std::vector<T>& v) { Mod r; for (const T& t : v) r.push_back(val(t)); return r; }
  void op(int o, int fault, bool& fired) {
    size_t h = ma.size() / 2; size_t cap = a.capacity(); const T* data = a.data(); bool strong = o == PUSH || o == PUSHR || o == PUSHE || o == PUSHL || o == RESERVE || o == RESERVEX; fired = false; Mod was = ma;
    try { switch (o) {
      case PUSH: { T t(++next); ma.push_back(next); if (fault) mc::fault_arm(fault); a.push_back(t); break; }
      case PUSHE: if (fault) mc::fault_arm(fault); a.push_back(); mc::fault_disarm(); setv(a.back(), ++next); ma.push_back(next); break;
      case PUSHR: { std::vector<T> s = some(2); Mod q = mod(s); ma.insert(ma.end(), q.begin(), q.end()); if (fault) mc::fault_arm(fault); a.push_back(s.begin(), s.end()); break; }
      case POP: if (!ma.empty()) { a.pop_back(); ma.pop_back(); } break;
      case POPN: { a.pop_back_n(h); ma.resize(ma.size() - h); break; }
      case CLEAR: a.clear(); ma.clear(); break;
      case ERASE0: if (!ma.empty()) { if (a.erase(a.begin()) != a.begin()) mc::fail("erase returns another position"); ma.erase(ma.begin()); } break;
      case ERASEM: if (!ma.empty()) { if (a.erase(a.begin() + h) != a.begin() + h) mc::fail("erase returns another position"); ma.erase(ma.begin() + h); } break;
      case ERASEL: if (!ma.empty()) { if (a.erase(a.end() - 1) != a.end()) mc::fail("erase returns another position"); ma.pop_back(); } break;
      case ERASER: if (ma.size() > 1) { if (a.erase(a.begin(), a.begin() + h) != a.begin()) mc::fail("erase returns another position"); ma.erase(ma.begin(), ma.begin() + h); } break;
      case ERASENONE: if (a.erase(a.begin() + h, a.begin() + h) != a.begin() + h) mc::fail("erase returns another position"); break;
      case RESERVE: if (fault) mc::fault_arm(fault); a.reserve(ma.size() + 1); mc::fault_disarm(); if (a.capacity() < ma.size() + 1) mc::fail("capacity after reserve"); if (cap >= ma.size() + 1 && (a.data() != data || a.capacity() != cap)) mc::fail("reserve moves the elements without need"); break;
      case RESERVEX: if (fault) mc::fault_arm(fault); a.reserve_precisely(ma.size() + 3); mc::fault_disarm(); if (a.capacity() != std::max(cap, ma.size() + 3)) mc::fail("capacity after reserve_precisely"); break;
      case SHRINK: a.shrink_to_fit(); if (a.capacity() != std::max<size_t>(N, ma.size())) mc::fail("capacity after shrink_to_fit"); break;
      case SWAP: case SWAPF: { size_t cb = b.capacity(); if (o == SWAP) a.swap(b); else swap(a, b); ma.swap(mb); if (a.capacity() != cb || b.capacity() != cap) mc::fail("capacities after swap"); break; }
      case ASSIGN: if (&(a = b) != &a) mc::fail("assignment returns another object"); ma = mb; break;
      case ASSIGNB: b = a; mb = ma; break;
      case ASELF: { Buf& r = a; a = r; break; }
      case COPY: { Buf c(a); same("copy", c, ma); Mod m = ma; c.push_back(T(++next)); m.push_back(next); same("copy", c, m); same("first", a, ma); c.swap(a); ma = m; break; }
      case RANGE: { std::vector<T> s = some(3); Buf c(s.begin(), s.end()), d(a.begin(), a.end()); same("range", c, mod(s)); same("range", d, ma); swap(c, b); mb = mod(s); break; }
      case FILL: { T t(++next); Buf c(2u, t); Mod m(2, next); same("fill", c, m); b = c; mb = m; break; }
      case CAP: { Buf c(typename Buf::size_type(4)); same("capacity", c, Mod()); if (c.capacity() != std::max(4u, N)) mc::fail("capacity of a new buffer"); c.swap(b); mb.clear(); break; }
      case INS0: case INSM: case INSE: { size_t k = o == INS0 ? 0 : o == INSM ? h : ma.size(); T t(++next); typename Buf::iterator r = a.insert(a.begin() + k, t); ma.insert(ma.begin() + k, next); if (r != a.begin() + k) mc::fail("insert returns another position"); break; }
      case INSN: { T t(++next); a.insert(a.begin() + h, 2u, t); ma.insert(ma.begin() + h, 2, next); break; }
      case INSR: case INSRE: { size_t k = o == INSR ? h : ma.size(); std::vector<T> s = some(2); Mod q = mod(s); const T* p = s.data(); a.insert(a.begin() + k, p, p + 2); ma.insert(ma.begin() + k, q.begin(), q.end()); break; }
      case INSL: { if (!mb.empty()) { a.insert(a.begin() + h, b.begin(), b.end()); ma.insert(ma.begin() + h, mb.begin(), mb.end()); } break; }
      case GROW: if (std::is_same<T, int>::value) { T* p = a.uninitialized_grow(2); for (int i = 0; i < 2; ++i) { setv(p[i], ++next); ma.push_back(next); } a.uninitialized_shrink(1); ma.pop_back(); a.uninitialized_resize(ma.size()); } break;
      case PUSHL: { std::vector<T> s = some(2); std::list<T> l(s.begin(), s.end()); Mod q = mod(s); ma.insert(ma.end(), q.begin(), q.end()); if (fault) mc::fault_arm(fault); a.push_back(l.begin(), l.end()); break; }
      case RANGEL: { std::vector<T> s = some(3); std::list<T> l(s.begin(), s.end()); Buf c(l.begin(), l.end(), al(3)); same("list range", c, mod(s)); swap(c, b); mb = mod(s); break; }
      case INSLIST: if constexpr (std::is_same<T, Obj>::value) { std::vector<T> s = some(2); std::list<T> l(s.begin(), s.end()); Mod q = mod(s); a.insert(a.begin() + h, l.begin(), l.end()); ma.insert(ma.begin() + h, q.begin(), q.end()); break; }
      case INSINPUT: { std::vector<T> s = some(3); Mod q = mod(s); const T* pos = s.data(); a.insert(a.begin() + h, In<T>(s.data(), &pos), In<T>(s.data() + 3, &pos)); ma.insert(ma.begin() + h, q.begin(), q.end()); break; }
      case PUSHN: { a.reserve(ma.size() + 2); size_t k = ma.size(); a.unchecked_push_back_n(2); if (std::is_same<T, int>::value && (val(a[k]) || val(a[k + 1]))) mc::fail("new elements are not value-initialised"); for (int i = 0; i < 2; ++i) { setv(a[k + i], ++next); ma.push_back(next); } break; }
      case ALLOC: { T t(++next); Buf c(2u, t, al(3)), d(typename Buf::size_type(N + 2), al(4)); same("fill", c, Mod(2, next)); same("capacity", d, Mod()); d = c; c.swap(b); mb.assign(2, next); Buf e(a.begin(), a.end(), al(5)); same("range", e, ma); e.swap(a); break; }
    } } catch (const mc::injected&) { fired = true; } catch (const std::bad_alloc&) { fired = true; }
    mc::fault_disarm();
    if (fired) { ma = was; if (!strong) mc::fail("unexpected exception"); if ((o == RESERVE || o == RESERVEX) && (a.capacity() != cap || a.data() != data)) mc::fail("a failed reserve changes the capacity or moves the elements"); }
  }
};
template <class T, unsigned N, class A> static void run(const Vec& v) {      // v: type, N, initial size of a, of b, fault in the last operation (0 = none), operations
  live = 0; owners = 0;
  { Run<T, N, A> r; for (int i = 0; i < v[2]; ++i) { r.a.push_back(T(++r.next)); r.ma.push_back(r.next); } for (int i = 0; i < v[3]; ++i) { r.b.push_back(T(++r.next)); r.mb.push_back(r.next); } r.check();
    for (size_t i = 5; i < v.size(); ++i) { bool fired; r.op(v[i], i + 1 == v.size() ? v[4] : 0, fired); r.check(); }
    if (v[4]) { bool f; r.op(PUSH, 0, f); r.op(COPY, 0, f); r.check(); } }
  if (live) mc::fail("%ld elements are never destroyed", live);
  if (owners) mc::fail("%zu blocks are never returned", owners);
}
template <class T, class A = std::allocator<T> > static void runt(const Vec& v) { switch (v[1]) { case 0: run<T, 0, A>(v); break; case 1: run<T, 1, A>(v); break; case 2: run<T, 2, A>(v); break; case 3: run<T, 3, A>(v); break; case 10: run<T, 10, A>(v); break; } }
static void body(const Vec& v) { v[0] == 0 ? runt<int>(v) : v[0] == 1 ? runt<Obj>(v) : v[0] == 2 ? runt<Pod>(v) : runt<Obj, SA<Obj> >(v); }
static Reg r1("buffer", body);
static void families(const std::string&, bool th) {
  auto go = [&](int t, int n, int sa, int sb, int f, const Vec& s) { Vec v = {t, n, sa, sb, f}; v.insert(v.end(), s.begin(), s.end()); run_case("buffer", v); };
  for (int t = 0; t < 4; ++t) for (int n : {0, 1, 2, 3, 10}) {
    std::vector<std::pair<int, int>> init; for (int sa : n == 10 ? std::vector<int>{0, 9, 10, 11, 40} : std::vector<int>{0, 1, 2, 3, 5}) for (int sb : n == 10 ? std::vector<int>{0, 9, 12} : std::vector<int>{0, 2, 4}) init.push_back({sa, sb});
    for (auto& i : init) sequences(NOPS, 2, [&](const Vec& s) { go(t, n, i.first, i.second, 0, s); });
    for (auto& i : init) if (th || (i.second == init[1].second && (t < 2 || i.first == init[7].first))) sequences(NOPS, 3, [&](const Vec& s) { if (s.size() > 2) go(t, n, i.first, i.second, 0, s); });
    if (th) sequences(NOPS, 4, [&](const Vec& s) { if (s.size() > 3) go(t, n, n == 10 ? 10 : n ? n - 1 : 0, n == 10 ? 12 : 2, 0, s); });
    for (int sa : {127, 128, 255, 256, 257, 258, 300, 513}) for (int sb : {0, 3, 257}) sequences(NOPS, th || sb == 3 ? 2 : 1, [&](const Vec& s) { go(t, n, sa, sb, 0, s); });
    for (int sa : {65535, 65537}) sequences(NOPS, 1, [&](const Vec& s) { go(t, n, sa, 2, 0, s); });
    if (t == 1) for (auto& i : init) sequences(NOPS, th ? 2 : 1, [&](const Vec& s) { for (int o : {PUSH, PUSHR, PUSHE, PUSHL, RESERVE, RESERVEX}) for (int f = 1; f <= i.first + 4 && f < 14; ++f) { Vec q = s; q.push_back(o); go(t, n, i.first, i.second, f, q); } });
  }
}
