// Operation sequences on signals, connections, scoped connections and blocks: every sequence up to a depth is run on
// the real library and compared with a reference model (calls, results, states of all handles, object lifetimes).
// CFG selects the signal configuration.
#ifndef CFG
#define CFG 0
#endif
#include "common.h"
#include <boost/signals2.hpp>
#include <boost/bind/bind.hpp>
#include <boost/optional.hpp>
#include <memory>
#include <climits>
#include <algorithm>
#include <functional>
#include <unordered_set>
#include <stdexcept>
using namespace boost::signals2;

// ------------------------------------------------------------------ programs
enum Code { CON, DISC, DISG, DISF, DISX, DISA, DISS, EMIT, NUM, DROP, SETC, THROW,
            SNEW, SASG, SDEL, SREL, SMC, SMA, SSWAP, SMSELF, SMP, SDISC, SMCON,
            BNEW, BNEWU, BCOPY, BASG, BBLK, BUNB, BDEL,
            HCPY, HMOV, HSWAP, HNUL, HDISC, HASG, HMSELF,
            SIGSWAP, SIGMC, SIGMA, SIGDEL, SIGNEW, SIGMSELF, FCON, DISW, CTHROW, CSETC, ARM, NCODE };
static const char* NAMES[] = {"con", "disc", "disg", "disf", "disx", "disa", "diss", "emit", "num", "drop", "setc", "throw",
            "snew", "sasg", "sdel", "srel", "smc", "sma", "sswap", "smself", "smp", "sdisc", "smcon",
            "bnew", "bnewu", "bcopy", "basg", "bblk", "bunb", "bdel",
            "hcpy", "hmov", "hswap", "hnul", "hdisc", "hasg", "hmself",
            "sigswap", "sigmc", "sigma", "sigdel", "signew", "sigmself", "fcon", "disw", "cthrow", "csetc", "arm"};
struct Op { int code, x, y, z; bool operator==(const Op& o) const { return code == o.code && x == o.x && y == o.y && z == o.z; } };
static Op O(int c, int x = 0, int y = 0, int z = 0) { return Op{c, x, y, z}; }
// CON x: signal*2 + at_front, y: group (0 = none), z: kind
enum Kind { PLAIN, EXT, REF, TSH0, TFOR2, TRK3, TBOTH, TWK0, TSLOT, SIGNAL, TSIG, TEXT0, TFSH2, TMANY, TGONE, SIGREF, SIGBIND, TCONV, TARGS, T12, NKIND };
// FCON x: 16 * n + signal*2 + at_front: connect whose n-th faultable step fails
// CTHROW x: a combiner that throws before it calls its x-th slot; CSETC x: one that replaces the combiner there
// ARM x: the x-th faultable step (allocation, copy of a combiner, slot function or group, group comparison) of the next operation fails
// tracked objects of a kind: bits 0,1 boost, 2 std, 3 trackable, 4 = signal variable 1
static int tracks(int kind) {
  switch (kind) { case TSH0: case TWK0: case TEXT0: case T12: return 1; case TFOR2: case TFSH2: return 4; case TRK3: return 8; case TBOTH: return 3; case TSLOT: return 2 | 4; case SIGNAL: case TSIG: case SIGREF: case SIGBIND: return 16; case TMANY: return 15; case TCONV: return 5; case TARGS: return 24; case TGONE: return 64; default: return 0; }
}
static bool is_sigk(int k) { return k == SIGNAL || k == SIGREF || k == SIGBIND; }
static bool is_extk(int k) { return k == EXT || k == TEXT0; }
typedef std::vector<Op> Seq;
enum { MAXC = 16, MAXJ = 4, NSV = 3, NS = 2, NB = 3, NH = 3 };
struct Program {
  Seq ops; Seq script[MAXC];
  static std::string ostr(const Op& p) { char b[64]; snprintf(b, sizeof b, "%s:%d:%d:%d", NAMES[p.code], p.x, p.y, p.z); return b; }
  static std::string sstr(const Seq& q) { std::string s; for (size_t i = 0; i < q.size(); ++i) s += (i ? ";" : "") + ostr(q[i]); return s; }
  std::string str() const { std::string s = sstr(ops); for (int i = 0; i < MAXC; ++i) if (!script[i].empty()) s += "|S" + std::to_string(i) + "=" + sstr(script[i]); return s; }
  static Op parse_op(const std::string& s) { char nm[16]; int x = 0, y = 0, z = 0; if (sscanf(s.c_str(), "%15[a-z0-9]:%d:%d:%d", nm, &x, &y, &z) < 1) exit(3); for (int i = 0; i < NCODE; ++i) if (!strcmp(nm, NAMES[i])) return O(i, x, y, z); fprintf(stderr, "bad op %s\n", s.c_str()); exit(3); }
  static Program parse(const std::string& s) {
    Program p; std::stringstream ss(s); std::string part;
    while (std::getline(ss, part, '|')) {
      Seq* t = &p.ops; std::string body = part;
      if (part[0] == 'S') { size_t e = part.find('='); t = &p.script[atoi(part.c_str() + 1)]; body = part.substr(e + 1); }
      std::stringstream q(body); std::string o; while (std::getline(q, o, ';')) if (!o.empty()) t->push_back(parse_op(o));
    }
    return p;
  }
};

// ------------------------------------------------------------------ configurations
struct Comb {
  typedef int result_type; int id; mutable int uses;       // counts the emissions begun and ended with this object or the one it is a copy of
  Comb(int i = 0): id(i), uses(0) {}
  Comb(const Comb& o): id(o.id), uses(o.uses) { mc::fault_point(); }
  Comb& operator=(const Comb& o) { mc::fault_point(); id = o.id; uses = o.uses; return *this; }
  template <class It> int operator()(It f, It l) const;
};
static long g_held = 0, g_locks = 0;
struct UserMutex {                       // a user-supplied Lockable that checks its use
  bool held = false;
  void lock() { if (held) mc::fail("user mutex locked recursively"); held = true; ++g_held; ++g_locks; }
  bool try_lock() { if (held) return false; held = true; ++g_held; ++g_locks; return true; }
  void unlock() { if (!held) mc::fail("user mutex unlocked while not locked"); held = false; --g_held; }
  ~UserMutex() { if (held) mc::fail("user mutex destroyed while it is locked"); }
};
struct ModLess { bool operator()(int a, int b) const { return a % 10 < b % 10; } };
struct Key { int v; explicit Key(int i): v(i) {} };                   // no default constructor, no operator<
struct KeyGreater { bool operator()(const Key& a, const Key& b) const { return a.v > b.v; } };
#if CFG == 0
typedef signal<int(int), Comb> Sig; typedef int Grp; static int grp(int g) { return g == 0 ? 5 : g == 1 ? INT_MIN : g == 2 ? 0 : INT_MAX; } static int rankof(int g) { return g; }
#elif CFG == 1
typedef signal<int(int), Comb, int, std::greater<int> > Sig; typedef int Grp; static int grp(int g) { return g == 0 ? 5 : g == 1 ? INT_MIN : g == 2 ? 0 : INT_MAX; } static int rankof(int g) { return -g; }
#elif CFG == 2
typedef signal<int(int), Comb, std::string> Sig; typedef std::string Grp; static std::string grp(int g) { return g == 1 ? std::string() : std::string(20, 'k') + char('a' + g); } static int rankof(int g) { return g; }
#elif CFG == 3
typedef signal<int(int), Comb, int, ModLess> Sig; typedef int Grp; static int next_ = 0; static int grp(int g) { return g + 10 * (++next_ % 5); } static int rankof(int g) { return g; }
#elif CFG == 4
typedef signal<int(int), Comb, Key, KeyGreater> Sig; typedef Key Grp; static Key grp(int g) { return Key(g); } static int rankof(int g) { return -g; }
#elif CFG == 5
typedef signal<int(int), Comb, int, std::less<int>, boost::function<int(int)>, boost::function<int(const connection&, int)>, dummy_mutex> Sig; typedef int Grp; static int grp(int g) { return g - 2; } static int rankof(int g) { return g; }
#elif CFG == 6
typedef signal<int(int), Comb, int, std::less<int>, std::function<int(int)>, std::function<int(const connection&, int)>, boost::signals2::mutex> Sig; typedef int Grp; static int grp(int g) { return g; } static int rankof(int g) { return g; }
#define NO_CONTAINS
#elif CFG == 7
#define USERMUTEX true
typedef signal_type<int(int), keywords::combiner_type<Comb>, keywords::mutex_type<UserMutex> >::type Sig; typedef int Grp; static int grp(int g) { return g - 2; } static int rankof(int g) { return g; }
#elif CFG == 8
typedef signal_type<keywords::mutex_type<dummy_mutex>, keywords::group_compare_type<std::greater<std::string> >, keywords::group_type<std::string>, keywords::signature_type<int(int)>, keywords::combiner_type<Comb> >::type Sig; typedef std::string Grp; static std::string grp(int g) { return std::string(1, char('a' + g)); } static int rankof(int g) { return -g; }
#elif CFG == 9
#define USERFN true
template <class F> struct UserFn;              // slot function types of the user's own
template <class R, class... A> struct UserFn<R(A...)> {
  typedef R result_type; std::function<R(A...)> f; static long made; UserFn() {}
  template <class T, class = typename std::enable_if<!std::is_base_of<UserFn, typename std::decay<T>::type>::value>::type> UserFn(const T& t): f(t) { ++made; }
  R operator()(A... a) const { return f(a...); } explicit operator bool() const { return !!f; } };
template <class R, class... A> long UserFn<R(A...)>::made = 0;
#define USERMUTEX true
typedef signal_type<int(int), keywords::slot_function_type<UserFn<int(int)> >, keywords::extended_slot_function_type<UserFn<int(const connection&, int)> >, keywords::combiner_type<Comb>, keywords::mutex_type<UserMutex> >::type Sig; typedef int Grp; static int grp(int g) { return g - 2; } static int rankof(int g) { return g; }
#define NO_CONTAINS
#elif CFG == 10
#define USERMUTEX true
typedef signal_type<int(int), Comb, int, ModLess, boost::function<int(int)>, boost::function<int(const connection&, int)>, UserMutex>::type Sig; typedef int Grp; static int next_ = 0; static int grp(int g) { return g + 10 * (++next_ % 5); } static int rankof(int g) { return g; }
#elif CFG == 12                          // a class derived from the signal class
struct Sig : signal<int(int), Comb> { typedef signal<int(int), Comb> Base; explicit Sig(const Comb& c): Base(c) {} Sig() {} };
typedef int Grp; static int grp(int g) { return g; } static int rankof(int g) { return g; }
#elif CFG == 14                          // a group comparison with state, given to the constructor; each signal variable has its own
struct DirLess { int dir; DirLess(): dir(0) {} explicit DirLess(int d): dir(d) {} bool operator()(int a, int b) const { if (!dir) mc::fail("the comparison given to the signal's constructor is not the one used"); return dir > 0 ? a < b : b < a; } };
typedef signal<int(int), Comb, int, DirLess> Sig; typedef int Grp; static int grp(int g) { return g; } static int rankof(int g) { return g; }
#define STATEFUL
#elif CFG == 11
struct FKey { int v; explicit FKey(int i): v(i) {} FKey(const FKey& o): v(o.v) { mc::fault_point(); } FKey& operator=(const FKey& o) { mc::fault_point(); v = o.v; return *this; } };
struct FLess { FLess() {} FLess(const FLess&) { mc::fault_point(); } bool operator()(const FKey& a, const FKey& b) const { mc::fault_point(); return a.v < b.v; } };
typedef signal<int(int), Comb, FKey, FLess> Sig; typedef FKey Grp; static FKey grp(int g) { return FKey(g); } static int rankof(int g) { return g; }
#endif

#ifdef USERFN
#define USERFN_BEGIN long m0 = UserFn<int(int)>::made, m1 = UserFn<int(const connection&, int)>::made;
#define USERFN_END(k) if (UserFn<int(int)>::made == m0 || (is_extk(k) && UserFn<int(const connection&, int)>::made == m1)) mc::fail("CONFIG the slot function type chosen for the signal is not the one used");
#else
#define USERFN_BEGIN
#define USERFN_END(k)
#endif
#ifndef USERMUTEX
#define USERMUTEX false
#endif
// ------------------------------------------------------------------ events
enum EvK { E_OP = 1, E_CALL, E_RET, E_RES, E_EXC, E_COMB, E_OBS1, E_OBS2, E_OBS3, E_OBS4, E_OBS5, E_TOK, E_SELF, E_NUM, E_LIVE, E_FIN, E_OBJ, E_FAULT, E_OBS6, E_CEND, E_FAIL, E_FIRED };
struct Ev { int kind, a, b, c; };

// ------------------------------------------------------------------ real world
static const int ALIVE = 0x600d, DEAD = 0xdead;
struct World;
static World* G = nullptr; static bool g_faulted = false, g_fired = false;
struct Token { int conn, magic; explicit Token(int c); ~Token(); };
struct Boom { int id; Boom(int i): id(i) {} };
struct StdBoom: std::runtime_error { int id; explicit StdBoom(int i): std::runtime_error("boom"), id(i) {} };
static bool g_hobs = false;      // observe how handles compare
static int slot_body(int conn, int kind, const Token* t, int a, const connection* self);
struct SlotF {
  int fn, conn, kind; boost::shared_ptr<Token> tok;
  SlotF(int f, int c, int k, bool live): fn(f), conn(c), kind(k) { if (live) tok.reset(new Token(c)); }
  SlotF(const SlotF& o): fn(o.fn), conn(o.conn), kind(o.kind), tok(o.tok) { mc::fault_point(); }
  int operator()(int a) const { return slot_body(conn, kind, tok.get(), a, 0); }
  bool operator==(const SlotF& o) const { return fn == o.fn; }
};
struct SlotX {
  SlotF f; explicit SlotX(const SlotF& s): f(s) {}
  int operator()(const connection& c, int a) const { return slot_body(f.conn, f.kind, f.tok.get(), a, &c); }
  bool operator==(const SlotX& o) const { return f == o.f; }
};
static bool g_alive[4];       // set by the constructors and destructors of the tracked objects
struct TObj : trackable { int j, magic; explicit TObj(int j): j(j), magic(ALIVE) { g_alive[j] = true; } ~TObj() { magic = DEAD; g_alive[j] = false; mc::log(E_OBJ, j); } };
static int bound_call(TObj* o, const SlotF& f, int a) { if (o->magic != ALIVE) mc::fail("TRACK a slot runs on a destroyed trackable object"); return f(a); }
static int args_call(const SlotF& f, TObj& o, Sig& s, int a) { if (o.magic != ALIVE) mc::fail("TRACK a slot runs on a destroyed trackable object"); if (s.null()) mc::fail("TRACK a slot runs with a dead bound signal"); return f(a); }
struct Obj { int j, magic; explicit Obj(int j): j(j), magic(ALIVE) { g_alive[j] = true; } ~Obj() { magic = DEAD; g_alive[j] = false; mc::log(E_OBJ, j); } };
struct World {
  std::unique_ptr<Sig> sv[NSV];
  connection K[MAXC]; int ncon;
  boost::shared_ptr<Obj> own[2]; std::shared_ptr<Obj> fown; std::unique_ptr<TObj> tobj;
  boost::weak_ptr<Obj> wk[2]; std::weak_ptr<Obj> fwk;
  std::unique_ptr<SlotF> refs[MAXC];
  std::unique_ptr<scoped_connection> SC[NS]; std::unique_ptr<shared_connection_block> BL[NB]; connection H[NH];
  bool tok[MAXC], done[MAXC]; int kindof[MAXC], active[MAXC]; int emc, curem, depth; const Program* prog; bool tearing; int pending_fault, arm, opno, looks; bool failed, armed;
};
Token::Token(int c): conn(c), magic(ALIVE) { G->tok[c] = true; }
Token::~Token() { if (magic != ALIVE) mc::fail("SLOTMEM slot function destroyed twice"); magic = DEAD; G->tok[conn] = false; if (G->active[conn]) mc::fail("TOKEN a slot function is destroyed while it runs"); mc::log(E_TOK, conn); }
template <class It> int Comb::operator()(It f, It l) const {
  int mine = id; mc::log(E_COMB, mine, uses); ++uses; ++G->looks; int r = -1;
  for (int k = 0; f != l; ++k) {
    if (mine == 100 + k) throw Boom(mine);
    if (mine == 200 + k) G->sv[0]->set_combiner(Comb(9));
    r = *f; ++f; if (id != mine || uses < 1) mc::fail("COMB the combiner was replaced in place while an emission was running it"); }
  int tokm = 0; for (int i = 0; i < G->ncon; ++i) if (G->tok[i]) tokm |= 1 << i;      // the emission has moved on from its last slot
  mc::log(E_CEND, 0, tokm, 0); ++uses; return r;
}
static void run_op(const Op& o);
static void failure(int op, int looks) { World& w = *G; if (w.failed) return; w.failed = true; mc::log(E_FAIL, op, looks); }     // innermost operation that the injected failure left
static int slot_body(int conn, int kind, const Token* tok, int a, const connection* self) {
  World& w = *G;
  if (tok->magic != ALIVE || tok->conn != conn) mc::fail("SLOTMEM a slot runs on a destroyed slot function");
  int tokm = 0, objm = 0; for (int i = 0; i < w.ncon; ++i) if (w.tok[i]) tokm |= 1 << i;
  for (int j = 0; j < 3; ++j) if (g_alive[j]) objm |= 1 << j;
  ++w.looks; mc::log(E_CALL, conn, a, w.curem); mc::log(E_LIVE, conn, tokm, objm);
  if (self) { if (*self != w.K[conn] && w.K[conn] != connection()) mc::fail("SELF an extended slot received a connection that is not its own"); mc::log(E_SELF, conn, self->connected(), self->blocked()); }
  if (g_held || mc::locks_held()) mc::fail("the library is holding a mutex while a slot runs");
  ++w.active[conn];
  struct Act { int c; ~Act() { --G->active[c]; } } act = {conn};
  if (!w.done[conn] && !w.tearing && !w.prog->script[conn].empty()) {
    w.done[conn] = true;
    for (auto& o : w.prog->script[conn]) {
      ++w.opno; const int no = w.opno;
      try { if (o.code == DISC && o.x == conn && self) self->disconnect(); else run_op(o); }
      catch (const mc::injected&) { failure(no, -1); throw; } catch (const std::bad_alloc&) { failure(no, -1); throw; }
      if (tok->magic != ALIVE) mc::fail("SLOTMEM a slot function was destroyed while it runs");
    }
  }
  int t = tracks(kind); for (int j = 0; j < 3; ++j) if ((t >> j & 1) && !g_alive[j]) mc::fail("TRACK a tracked object is destroyed while its slot runs");
  mc::log(E_RET, conn, w.curem);
  return conn * 64 + (a & 63);
}
#ifdef STATEFUL
static Sig* newsig(int c, int var) { return new Sig(Comb(c), DirLess(var & 1 ? -1 : 1)); }
#define DIR(i) (impl[i].var & 1 ? -1 : 1)
#else
static Sig* newsig(int c, int) { return new Sig(Comb(c)); }
#define DIR(i) 1
#endif
static connection do_connect(int id, const Op& o) {
  World& w = *G; Sig& g = *w.sv[o.x >> 1]; connect_position pos = (o.x & 1) ? at_front : at_back; int kind = o.z; int fn = id & 1;
  SlotF f(fn, id, kind, !is_sigk(kind) && kind != REF); if (w.pending_fault) mc::fault_arm(w.pending_fault);
  auto con = [&](const Sig::slot_type& s) { return o.y ? g.connect(grp(o.y), s, pos) : g.connect(s, pos); };
  auto conx = [&](const Sig::extended_slot_type& s) { return o.y ? g.connect_extended(grp(o.y), s, pos) : g.connect_extended(s, pos); };
  switch (kind) {
    case EXT: return conx(Sig::extended_slot_type(SlotX(f)));
    case REF: w.refs[id].reset(new SlotF(fn, id, kind, true)); 
#ifdef NO_CONTAINS
      return con(Sig::slot_type(std::ref(*w.refs[id])));
#else
      return con(Sig::slot_type(boost::ref(*w.refs[id])));
#endif

    case TSH0: return w.own[0] ? con(Sig::slot_type(f).track(w.own[0])) : con(Sig::slot_type(f).track(w.wk[0]));
    case TWK0: return con(Sig::slot_type(f).track(w.wk[0]));
    case TEXT0: return conx(Sig::extended_slot_type(SlotX(f)).track(w.wk[0]));
    case TFOR2: return con(Sig::slot_type(f).track_foreign(w.fwk));
    case TFSH2: return w.fown ? con(Sig::slot_type(f).track_foreign(w.fown)) : con(Sig::slot_type(f).track_foreign(w.fwk));
    case TBOTH: return con(Sig::slot_type(f).track(w.wk[0]).track(w.wk[1]));
    case TRK3: return con(Sig::slot_type(&bound_call, w.tobj.get(), f, boost::placeholders::_1));
    case TSLOT: { Sig::slot_type other(SlotF(7, 15, 0, false)); other.track(w.wk[1]); other.track_foreign(w.fwk); return con(Sig::slot_type(f).track(other)); }
    case TMANY: { Sig::slot_type s(&bound_call, w.tobj.get(), f, boost::placeholders::_1); s.track(w.wk[0]).track(w.wk[1]).track_foreign(w.fwk); Sig::slot_type t(s), u(t); return con(u); }
    case SIGNAL: return con(Sig::slot_type(*w.sv[1]));
#ifndef NO_CONTAINS
    case SIGREF: return con(Sig::slot_type(boost::ref(*w.sv[1])));
#endif
    case SIGBIND: return con(Sig::slot_type(boost::ref(*w.sv[1]), boost::placeholders::_1));
    case TSIG: return con(Sig::slot_type(f).track(*w.sv[1]));
    case TCONV: { boost::signals2::slot<long(long)> other(f); other.track(w.wk[0]); other.track_foreign(w.fwk); return con(Sig::slot_type(other)); }      // converted from a slot of another signature
    case TARGS: return con(Sig::slot_type(&args_call, f, boost::ref(*w.tobj), boost::ref(*w.sv[1]), boost::placeholders::_1));      // several bound objects that are tracked
    case T12: { Sig::slot_type s(f); for (int i = 0; i < 12; ++i) s.track(w.wk[0]); return con(s); }
    case TGONE: { boost::shared_ptr<int> p(new int(0)); Sig::slot_type s(f); s.track(p); p.reset(); return con(s); }
    default: return con(Sig::slot_type(f));
  }
}
static void observe() {
  World& w = *G; int cm = 0, bm = 0, tm = 0;
  // what is asked first varies with the program: connected() disconnects what has expired, num_slots() and empty() must do without
  int order = (int)(w.prog->ops.size() + w.ncon) % 3, num[NSV] = {0}; bool emp[NSV] = {false};
  for (int s = 0; s < NSV; ++s) if (w.sv[s]) { if (order == 1) num[s] = (int)w.sv[s]->num_slots(); if (order) emp[s] = w.sv[s]->empty(); if (order == 2) num[s] = (int)w.sv[s]->num_slots(); }
  for (int i = 0; i < w.ncon; ++i) { if (w.K[i].blocked()) bm |= 1 << i; if (w.K[i].connected()) cm |= 1 << i; if (w.tok[i]) tm |= 1 << i; }
  int om = 0; for (int j = 0; j < 2; ++j) if (!w.wk[j].expired()) om |= 1 << j;
  if (!w.fwk.expired()) om |= 4;
  mc::log(E_OBS1, 0, cm, bm); mc::log(E_OBS3, 0, tm, om);
  for (int s = 0; s < NSV; ++s) if (w.sv[s]) {
    Sig& g = *w.sv[s]; bool null = g.null(); Comb cc = null ? Comb(-1) : g.combiner(); int comb = cc.id + 1024 * cc.uses;
    if (!order) { num[s] = (int)g.num_slots(); emp[s] = g.empty(); } mc::log(E_OBS2, s, num[s] * 2 + emp[s], comb * 2 + null);
  }
  auto who = [&](const connection& c) { for (int i = 0; i < w.ncon; ++i) if ((cm >> i & 1) && c == w.K[i]) return i + 1; return 0; };
  int sm = 0; for (int s = 0; s < NS; ++s) if (w.SC[s]) sm |= (who(*w.SC[s]) + 32) << (8 * s);
  int bl = 0; for (int b = 0; b < NB; ++b) if (w.BL[b]) bl |= (who(w.BL[b]->connection()) + 32 + (w.BL[b]->blocking() ? 64 : 0)) << (8 * b);
  int hm = 0; for (int h = 0; h < NH; ++h) hm |= who(w.H[h]) << (8 * h);
  mc::log(E_OBS4, 0, sm, bl); mc::log(E_OBS5, 0, hm, 0);
  if (g_hobs) {
    auto one = [&](int idx, const connection& c) {
      int mask = 0, null = c == connection();
      for (int i = 0; i < w.ncon; ++i) { if (c == w.K[i]) mask |= 1 << i; int n = (c == w.K[i]) + (c < w.K[i]) + (w.K[i] < c); if (n != 1 || (c == w.K[i]) != (w.K[i] == c)) mc::fail("HANDLE comparison of two handles is inconsistent"); }
      if (null + (c < connection()) + (connection() < c) != 1) mc::fail("HANDLE comparison with the null connection is inconsistent");
      connection d(c); if (d != c || d < c || c < d) mc::fail("HANDLE a copy of a handle differs from it");
      mc::log(E_OBS6, idx, mask, null);
    };
    for (int h = 0; h < NH; ++h) one(h, w.H[h]); for (int q = 0; q < NS; ++q) if (w.SC[q]) one(8 + q, *w.SC[q]); for (int b = 0; b < NB; ++b) if (w.BL[b]) one(16 + b, w.BL[b]->connection());
    for (int i = 0; i < w.ncon; ++i) one(32 + i, w.K[i]);
  }
  for (int i = 0; i < w.ncon; ++i) for (int j = 0; j < w.ncon; ++j) if (cm >> i & cm >> j & 1) {
    bool eq = w.K[i] == w.K[j]; if (eq != (i == j)) mc::fail("HANDLE connections %d and %d compare %s", i, j, eq ? "equal" : "different");
    if ((w.K[i] != w.K[j]) == eq) mc::fail("HANDLE == and != agree");
    if (eq && (w.K[i] < w.K[j] || w.K[j] < w.K[i])) mc::fail("HANDLE equal connections are ordered");
    if (!eq && !((w.K[i] < w.K[j]) ^ (w.K[j] < w.K[i]))) mc::fail("HANDLE < does not order different connections");
  }
}
#ifdef CONSTEMIT      // every emission through the const overload
#define EMITTED(s) const_cast<const Sig&>(s)
#else
#define EMITTED(s) (s)
#endif
static void do_emit(int s) {
  World& w = *G; int save = w.curem; int em = ++w.emc; w.curem = em; if (++w.depth > 6) mc::fail("harness: nesting");
  long locks = g_locks; struct Used { long l; bool on; ~Used() { if (on && g_locks == l) mc::fail("user mutex is not the one an emission locks"); } } used = {locks, USERMUTEX}; (void)used;
  int no = w.opno, l0 = w.looks; w.looks = 0; struct Looks { int l; ~Looks() { G->looks = l; } } lk = {l0}; (void)lk;
  try { int r = EMITTED(*w.sv[s])(em); w.curem = save; --w.depth; mc::log(E_RES, em, r); }
  catch (const Boom& b) { w.curem = save; --w.depth; mc::log(E_EXC, em, b.id); }
  catch (const StdBoom& b) { w.curem = save; --w.depth; mc::log(E_EXC, em, b.id); }
  catch (const expired_slot&) { w.curem = save; --w.depth; mc::log(E_EXC, em, 9999); }
  catch (const mc::injected&) { w.curem = save; --w.depth; failure(no, w.looks); mc::log(E_EXC, em, 9998); }
  catch (const std::bad_alloc&) { w.curem = save; --w.depth; failure(no, w.looks); mc::log(E_EXC, em, 9998); }
}
static void run_op_(const Op& o);
static void run_op(const Op& o) {
  struct Free { ~Free() { if (g_held) mc::fail("user mutex is left locked by an operation"); if (mc::locks_held()) mc::fail("holding a mutex after an operation"); } } f;
  run_op_(o);
}
static void run_op_(const Op& o) {
  World& w = *G;
  switch (o.code) {
    case CON: { int id = w.ncon++; w.tok[id] = false; w.kindof[id] = o.z; USERFN_BEGIN w.K[id] = do_connect(id, o); USERFN_END(o.z) break; }
    case FCON: {
      int id = w.ncon++; w.tok[id] = false; w.kindof[id] = o.z; Op c = o; c.x &= 15; bool failed = false;
      { struct Guard { ~Guard() { mc::fault_disarm(); } } guard; w.pending_fault = o.x >> 4;
        try { w.K[id] = do_connect(id, c); } catch (const mc::injected&) { failed = true; } catch (const std::bad_alloc&) { failed = true; } }
      w.pending_fault = 0;
      if (mc::fault_fired() && !failed) mc::fail("FAULT connect swallowed an exception");
      mc::log(E_FAULT, id, failed); break;
    }
    case CTHROW: w.sv[o.y]->set_combiner(Comb(100 + o.x)); break;
    case CSETC: w.sv[o.y]->set_combiner(Comb(200 + o.x)); break;
    case DISC: w.K[o.x].disconnect(); break;
    case DISG: w.sv[o.y]->disconnect(grp(o.x)); break;
#ifndef NO_CONTAINS
    case DISF: w.sv[o.y]->disconnect(SlotF(o.x, -1, 0, false)); break;
    case DISX: w.sv[o.y]->disconnect(SlotX(SlotF(o.x, -1, 0, false))); break;
    case DISW: { SlotF f(o.x, -1, 0, false); w.sv[o.y]->disconnect(boost::ref(f)); break; }
    case DISS: w.sv[o.y]->disconnect(*w.sv[o.x]); break;
#endif
    case DISA: w.sv[o.x]->disconnect_all_slots(); break;
    case EMIT: do_emit(o.x); break;
    case NUM: { bool e = false; if (o.y) e = w.sv[o.x]->empty(); int n = (int)w.sv[o.x]->num_slots(); if (!o.y) e = w.sv[o.x]->empty(); mc::log(E_NUM, o.x, n, e); break; }
    case DROP: if (o.x < 2) w.own[o.x].reset(); else if (o.x == 2) w.fown.reset(); else w.tobj.reset(); break;
    case SETC: w.sv[o.y]->set_combiner(Comb(o.x)); break;
    case THROW: if (o.z == 1) throw StdBoom(o.x); if (o.z == 2) throw expired_slot(); throw Boom(o.x);
    case SNEW: if (!w.armed) w.SC[o.x].reset(); w.SC[o.x].reset(new scoped_connection(w.K[o.y])); break;
    case SASG: *w.SC[o.x] = w.K[o.y]; break;
    case SDEL: w.SC[o.x].reset(); break;
    case SREL: w.H[0] = w.SC[o.x]->release(); break;
    case SMC: { scoped_connection* n = new scoped_connection(std::move(*w.SC[o.y])); w.SC[o.x].reset(n); break; }
    case SMA: *w.SC[o.x] = std::move(*w.SC[o.y]); break;
    case SSWAP: if (o.x) swap(*w.SC[0], *w.SC[1]); else w.SC[0]->swap(*w.SC[1]); break;
    case SMSELF: { scoped_connection& r = *w.SC[o.x]; r = std::move(r); break; }
    case SMP: { connection c(std::move(*w.SC[o.x])); w.H[0] = c; break; }
    case SDISC: w.SC[o.x]->disconnect(); break;
    case SMCON: { connection c(w.K[o.y]); *w.SC[o.x] = std::move(c); if (c != connection()) mc::fail("HANDLE moved-from connection is not null"); break; }
    case BNEW: if (!w.armed) w.BL[o.x].reset(); w.BL[o.x].reset(new shared_connection_block(w.K[o.y])); break;
    case BNEWU: if (!w.armed) w.BL[o.x].reset(); w.BL[o.x].reset(o.y < 0 ? new shared_connection_block(connection(), o.z) : new shared_connection_block(w.K[o.y], false)); break;
    case BCOPY: { shared_connection_block* n = new shared_connection_block(*w.BL[o.y]); w.BL[o.x].reset(n); break; }
    case BASG: *w.BL[o.x] = *w.BL[o.y]; break;
    case BBLK: w.BL[o.x]->block(); break;
    case BUNB: w.BL[o.x]->unblock(); break;
    case BDEL: w.BL[o.x].reset(); break;
    case HCPY: { connection c(w.H[o.y]); w.H[o.x] = c; break; }
    case HMOV: { connection c(std::move(w.H[o.y])); w.H[o.x] = std::move(c); break; }
    case HSWAP: if (o.z) w.H[o.x].swap(w.H[o.y]); else swap(w.H[o.x], w.H[o.y]); break;
    case HNUL: w.H[o.x] = connection(); break;
    case HDISC: w.H[o.x].disconnect(); break;
    case HASG: w.H[o.x] = w.K[o.y]; break;
    case HMSELF: { connection& r = w.H[o.x]; r = std::move(r); connection& q = w.H[o.x]; r = q; break; }
    case SIGSWAP: if (o.z) w.sv[o.x]->swap(*w.sv[o.y]); else swap(*w.sv[o.x], *w.sv[o.y]); break;
    case SIGMC: { Sig* n = new Sig(std::move(*w.sv[o.y])); w.sv[o.x].reset(n); break; }
    case SIGMA: *w.sv[o.x] = std::move(*w.sv[o.y]); break;
    case SIGMSELF: { Sig& r = *w.sv[o.x]; r.swap(r); break; }
    case SIGDEL: w.sv[o.x].reset(); break;
    case SIGNEW: w.sv[o.x].reset(newsig(o.y, o.x)); break;
    case ARM: w.arm = o.x; break;
  }
}

// ------------------------------------------------------------------ reference model
struct MConn { int impl, kind, fn, front, grp; bool expl; };
struct MImpl { int comb; std::vector<int> order; bool killed = false; int var = 0; };
struct Frame { int em, impl, active, pinimpl; int holds; std::vector<int> stopped; };
struct Model {
  struct Thrown { int id; bool expired = false; };
  const Program* prog = 0; std::vector<MConn> con; std::vector<MImpl> impl; std::vector<std::pair<int, int> > combs;      // combiner objects: id, emissions begun
  int newcomb(int id) { combs.push_back({id, 0}); return (int)combs.size() - 1; } int combid(int i) const { return combs[impl[i].comb].first; } int combval(int i) const { auto& c = combs[impl[i].comb]; return c.first + 1024 * c.second; } int sv[NSV]; bool own[4]; int tsig[MAXC];
  struct { bool ex; int conn; } sc[NS]; struct { bool ex; int conn; bool hold; } bl[NB]; int h[NH]; bool done[MAXC];
  std::vector<Frame> fr; int emc = 0, curem = 0; std::vector<Ev>* out = 0; bool refused = false; const std::vector<int>* faults = 0; size_t nfault = 0; struct Fail { int op, looks; }; const std::vector<Fail>* fails = 0; int opno = 0, looks = 0, until = -1, untilem = 0;
  const Fail* fail() const { if (fails) for (auto& f : *fails) if (f.op == opno) return &f; return 0; }
  void look(int em) { if (until >= 0 && looks >= until) throw Thrown{9998}; (void)em; }
  Model() {
    for (int i = 0; i < NSV; ++i) sv[i] = -2;           // -2: no signal object, -1: moved from
    for (int i = 0; i < 2; ++i) { impl.push_back(MImpl()); impl.back().comb = newcomb(0); impl.back().var = i; sv[i] = i; }
    for (auto& o : own) o = true; for (auto& s : sc) { s.ex = false; s.conn = -1; } for (auto& b : bl) { b.ex = false; b.conn = -1; b.hold = false; }
    for (auto& x : h) x = -1; for (auto& d : done) d = false; for (auto& t : tsig) t = -1;
  }
  void ev(int k, int a = 0, int b = 0, int c = 0) { if (out) out->push_back(Ev{k, a, b, c}); }
  bool obj(int j) const { if (j == 6) return false; if (own[j]) return true; if (j == 3) return false; for (auto& f : fr) if (f.holds >> j & 1) return true; return false; }
  bool ialive(int i) const { for (int s = 0; s < NSV; ++s) if (sv[s] == i) return true; for (auto& f : fr) if (f.pinimpl == i) return true; return false; }
  bool connected(int c) const {
    const MConn& m = con[c]; if (m.expl || !ialive(m.impl)) return false; int t = tracks(m.kind);
    for (int j = 0; j < 7; ++j) if ((t >> j & 1) && !(j == 4 ? ialive(tsig[c]) : obj(j))) return false;
    return true;
  }
  bool blk(int c) const { for (auto& b : bl) if (b.ex && b.hold && b.conn == c) return true; return false; }
  bool running(int c) const { for (auto& f : fr) if (f.active == c) return true; return false; }
  int tok(int c) const { if (is_sigk(con[c].kind)) return 0; if (con[c].kind == REF) return 1; if (connected(c) || running(c)) return 1; if (con[c].expl || !ialive(con[c].impl)) return 0; return -1; }
  void insert(int c) {
    MConn& m = con[c]; std::vector<int>& v = impl[m.impl].order;
    auto key = [&](int k) { const MConn& x = con[k]; return std::make_pair(x.grp ? 1 : x.front ? 0 : 2, x.grp ? DIR(m.impl) * rankof(x.grp) : 0); };
    auto kc = key(c); size_t p = 0;
    if (m.front) { while (p < v.size() && key(v[p]) < kc) ++p; } else { while (p < v.size() && !(kc < key(v[p]))) ++p; }
    v.insert(v.begin() + p, c);
  }
  void disc(int c) { if (c >= 0) con[c].expl = true; }
  int live_mask() const { int m = 0; for (int i = 0; i < (int)con.size(); ++i) { int t = tok(i); if (t > 0) m |= 1 << i; } return m; }
  int live_unknown() const { int m = 0; for (int i = 0; i < (int)con.size(); ++i) if (tok(i) < 0) m |= 1 << i; return m; }
  int obj_mask() const { int m = 0; for (int j = 0; j < 3; ++j) if (obj(j)) m |= 1 << j; return m; }
  int emission(int i, int arg, int em) {     // result
    look(em); ++looks; size_t fi = fr.size(); if (fi > 5) { refused = true; return -1; } fr.push_back(Frame{em, i, -1, -1, 0, {}}); std::vector<int> snap = impl[i].order; int cb = impl[i].comb, cid = combs[cb].first, k = 0; ev(E_COMB, cid, combs[cb].second++); int res = -1;
    for (int c : snap) {
      fr[fi].active = -1; fr[fi].holds = 0; fr[fi].pinimpl = -1; look(em);
      if (!connected(c) || blk(c)) continue;
      fr[fi].active = c; int t = tracks(con[c].kind); fr[fi].holds = t & 7; if (t & 16) fr[fi].pinimpl = tsig[c];
      if (cid == 100 + k) throw Thrown{cid};
      if (cid == 200 + k) { if (sv[0] < 0) refused = true; else impl[sv[0]].comb = newcomb(9); }
      ++k;
      try {
      if (is_sigk(con[c].kind)) { if (tsig[c] == i) refused = true; else res = emission(tsig[c], arg, em); if (refused) break; continue; }
      ++looks; ev(E_CALL, c, arg, em); ev(E_LIVE, c, live_mask() | live_unknown() << 16, obj_mask());
      if (is_extk(con[c].kind)) ev(E_SELF, c, connected(c), blk(c) || !connected(c));
      if (!done[c] && prog && !prog->script[c].empty()) { done[c] = true; for (auto& o : prog->script[c]) { if (!applicable(o)) { refused = true; } else { ++opno; const Fail* f = fail(); if (f && o.code != EMIT) { failed_op(o); throw Thrown{9998}; } apply(o); } if (refused) { fr.pop_back(); return res; } } }
      } catch (const Thrown& t) { if (t.expired) disc(c); throw; }      // a slot that throws expired_slot is disconnected
      ev(E_RET, c, em); res = c * 64 + (arg & 63);
    }
    fr[fi].active = -1; look(em); ev(E_CEND, 0, live_mask() | live_unknown() << 16, 0);
    ++combs[cb].second; fr.resize(fi); return res;
  }
  static bool byref(int k) { return k == SIGREF || k == SIGBIND || k == TARGS; }      // these refer to the signal object, so it must stay where it is
  bool pinned_objects() const { for (int c = 0; c < (int)con.size(); ++c) if (byref(con[c].kind) && connected(c)) return true; return false; }
  bool isnull(int s) const { return sv[s] == -1; }
  bool has(int s) const { return sv[s] >= 0; }
  bool emitting(int i) const { for (auto& f : fr) if (f.impl == i && f.pinimpl != i) { return true; } return false; }
  bool safe_to_lose(int i) const { for (size_t k = 0; k < fr.size(); ++k) if (fr[k].impl == i && !(k > 0 && fr[k - 1].pinimpl == i)) return false; return true; }
  bool applicable(const Op& o) const {
    auto C = [&](int c) { return c >= 0 && c < (int)con.size(); };
    switch (o.code) {
      case CON: if (!has(o.x >> 1) || con.size() >= MAXC - 2) return false;
        if (is_sigk(o.z) || o.z == TSIG || o.z == TARGS) { if (!has(1) || sv[1] == sv[o.x >> 1] || (is_sigk(o.z) && (o.x >> 1) != 0)) return false; }
        if ((o.z == TRK3 || o.z == TMANY || o.z == TARGS) && !own[3]) return false;
#ifdef NO_CONTAINS
        if (o.z == SIGREF) return false;
#endif
        return true;
      case FCON: return has(o.x >> 1 & 7) && con.size() < MAXC - 2;
      case DISC: return C(o.x);
      case DISG: return sv[o.y] != -2;
      case DISF: case DISX: case DISW:
#ifdef NO_CONTAINS
        return false;
#endif
        return sv[o.y] != -2;
      case DISS:
#ifdef NO_CONTAINS
        return false;
#endif
        return sv[o.y] != -2 && sv[o.x] != -2;
      case DISA: case NUM: return sv[o.x] != -2;
      case EMIT: return has(o.x) && fr.size() < 4;
      case DROP: return own[o.x] || (fails && !fails->empty());      // after an injected failure the other scripts meet other states
      case SETC: case CTHROW: case CSETC: return has(o.y);
      case THROW: return !fr.empty();
      case SNEW: return C(o.y); case SASG: case SMCON: return sc[o.x].ex && C(o.y);
      case SDEL: case SREL: case SMSELF: case SMP: case SDISC: return sc[o.x].ex;
      case SMC: return sc[o.y].ex && o.x != o.y; case SMA: return sc[o.x].ex && sc[o.y].ex;
      case SSWAP: return sc[0].ex && sc[1].ex;
      case BNEW: return C(o.y); case BNEWU: return o.y < 0 || C(o.y); case BCOPY: return bl[o.y].ex && o.x != o.y; case BASG: return bl[o.x].ex && bl[o.y].ex;
      case BBLK: case BUNB: case BDEL: return bl[o.x].ex;
      case HASG: return C(o.y);
      case HCPY: case HMOV: case HSWAP: case HNUL: case HDISC: case HMSELF: return true;
      case SIGSWAP: return !pinned_objects() && sv[o.x] != -2 && sv[o.y] != -2 && fr.empty();
      case SIGMC: return !pinned_objects() && sv[o.y] != -2 && o.x != o.y && fr.empty();
      case SIGMA: return !pinned_objects() && sv[o.x] != -2 && sv[o.y] != -2 && o.x != o.y && fr.empty();
      case SIGMSELF: return sv[o.x] != -2 && fr.empty();
      case SIGDEL: if (sv[o.x] < 0) return sv[o.x] != -2;
        // slots that refer to the signal object (boost::ref, bind) cannot outlive it while an emission keeps it from expiring
        for (auto& f : fr) if (f.pinimpl == sv[o.x]) for (int c = 0; c < (int)con.size(); ++c) if (byref(con[c].kind) && tsig[c] == sv[o.x] && connected(c)) return false;
        return safe_to_lose(sv[o.x]);
      case SIGNEW: return !pinned_objects() && fr.empty();
      case ARM: return fr.empty();
    }
    return false;
  }
  // an operation that fails has no effect
  void failed_op(const Op& o) { if (o.code == CON) con.push_back(MConn{sv[o.x >> 1], o.z, (int)con.size() & 1, o.x & 1, o.y, true}); ev(E_FAIL, opno, -1); }
  void step(const Op& o) { ++opno; if (o.code != EMIT && fail()) failed_op(o); else apply(o); }
  void apply(const Op& o) {
    switch (o.code) {
      case CON: { int id = (int)con.size(); con.push_back(MConn{sv[o.x >> 1], o.z, id & 1, o.x & 1, o.y, false}); if (is_sigk(o.z) || o.z == TSIG || o.z == TARGS) tsig[id] = sv[1]; insert(id); break; }
      case FCON: { int id = (int)con.size(); bool failed = !faults || nfault >= faults->size() || (*faults)[nfault]; ++nfault; con.push_back(MConn{sv[o.x >> 1 & 7], o.z, id & 1, o.x & 1, o.y, failed}); if (!failed) insert(id); ev(E_FAULT, id, failed); break; }
      case DISC: disc(o.x); break;
      case DISG: if (has(o.y)) for (int c : impl[sv[o.y]].order) if (con[c].grp && rankof(con[c].grp) == rankof(o.x)) disc(c); break;
      case DISF: case DISW: if (has(o.y)) for (int c : impl[sv[o.y]].order) { int k = con[c].kind; if (con[c].fn == o.x && !is_extk(k) && !is_sigk(k) && k != TRK3 && k != TMANY && k != TCONV && k != TARGS) disc(c); } break;
      case DISX: if (has(o.y)) for (int c : impl[sv[o.y]].order) if (con[c].fn == o.x && is_extk(con[c].kind)) disc(c); break;
      case DISS: if (has(o.y) && has(o.x)) for (int c : impl[sv[o.y]].order) if ((con[c].kind == SIGNAL || con[c].kind == SIGREF) && tsig[c] == sv[o.x]) disc(c); break;
      case DISA: if (has(o.x)) for (int c : impl[sv[o.x]].order) disc(c); break;
      case EMIT: { int save = curem; int em = ++emc; curem = em; size_t d = fr.size(); const Fail* f = fail(); int no = opno, l0 = looks, u0 = until; looks = 0; until = f ? f->looks : -1; struct Back { Model& m; int l, u; ~Back() { m.looks = l; m.until = u; } } back = {*this, l0, u0}; (void)back; try { int r = emission(sv[o.x], em, em); curem = save; if (!refused) ev(E_RES, em, r); } catch (const Thrown& t) { fr.resize(d); curem = save; if (f && t.id == 9998) ev(E_FAIL, no, f->looks); ev(E_EXC, em, t.id); } break; }
      case NUM: ev(E_NUM, o.x, num(o.x), num(o.x) == 0); break;
      case DROP: own[o.x] = false; break;
      case SETC: impl[sv[o.y]].comb = newcomb(o.x); break;
      case CTHROW: impl[sv[o.y]].comb = newcomb(100 + o.x); break;
      case CSETC: impl[sv[o.y]].comb = newcomb(200 + o.x); break;
      case THROW: if (o.z == 2) throw Thrown{9999, true}; throw Thrown{o.x};
      case SNEW: if (sc[o.x].ex) disc(sc[o.x].conn); sc[o.x].ex = true; sc[o.x].conn = o.y; break;
      case SASG: case SMCON: disc(sc[o.x].conn); sc[o.x].conn = o.y; break;
      case SDEL: disc(sc[o.x].conn); sc[o.x].ex = false; sc[o.x].conn = -1; break;
      case SREL: case SMP: h[0] = sc[o.x].conn; sc[o.x].conn = -1; break;
      case SMC: { int c = sc[o.y].conn; sc[o.y].conn = -1; if (sc[o.x].ex) disc(sc[o.x].conn); sc[o.x].ex = true; sc[o.x].conn = c; break; }
      case SMA: if (o.x == o.y) break; disc(sc[o.x].conn); sc[o.x].conn = sc[o.y].conn; sc[o.y].conn = -1; break;
      case SSWAP: std::swap(sc[0].conn, sc[1].conn); break;
      case SMSELF: break;
      case SDISC: disc(sc[o.x].conn); break;
      case BNEW: bl[o.x].ex = true; bl[o.x].conn = o.y; bl[o.x].hold = true; break;
      case BNEWU: bl[o.x].ex = true; bl[o.x].conn = o.y; bl[o.x].hold = o.y < 0 && o.z; break;
      case BCOPY: case BASG: bl[o.x] = bl[o.y]; break;
      case BBLK: bl[o.x].hold = true; break;
      case BUNB: bl[o.x].hold = false; break;
      case BDEL: bl[o.x].ex = false; bl[o.x].hold = false; bl[o.x].conn = -1; break;
      case HCPY: h[o.x] = h[o.y]; break;
      case HMOV: { int c = h[o.y]; h[o.y] = -1; h[o.x] = c; break; }
      case HSWAP: std::swap(h[o.x], h[o.y]); break;
      case HNUL: h[o.x] = -1; break;
      case HDISC: disc(h[o.x]); break;
      case HASG: h[o.x] = o.y; break;
      case HMSELF: break;
      case SIGSWAP: std::swap(sv[o.x], sv[o.y]); break;
      case SIGMC: { int i = sv[o.y]; sv[o.y] = -1; sv[o.x] = i; break; }
      case SIGMA: { int i = sv[o.y]; sv[o.y] = -1; sv[o.x] = i; break; }
      case SIGMSELF: case ARM: break;
      case SIGDEL: sv[o.x] = -2; break;
      case SIGNEW: impl.push_back(MImpl()); impl.back().comb = newcomb(o.y); impl.back().var = o.x; sv[o.x] = (int)impl.size() - 1; break;
    }
  }
  int num(int s) const { int n = 0; if (has(s)) for (int c : impl[sv[s]].order) if (connected(c)) ++n; return n; }
  void observe() {
    int cm = 0, bm = 0; for (int i = 0; i < (int)con.size(); ++i) { if (connected(i)) cm |= 1 << i; if (!connected(i) || blk(i)) bm |= 1 << i; }
    ev(E_OBS1, 0, cm, bm); ev(E_OBS3, 0, live_mask() | live_unknown() << 16, obj_mask());
    for (int s = 0; s < NSV; ++s) if (sv[s] != -2) ev(E_OBS2, s, num(s) * 2 + (num(s) == 0), (isnull(s) ? -1 : combval(sv[s])) * 2 + isnull(s));
    auto who = [&](int c) { return c >= 0 && (cm >> c & 1) ? c + 1 : 0; };
    int sm = 0; for (int s = 0; s < NS; ++s) if (sc[s].ex) sm |= (who(sc[s].conn) + 32) << (8 * s);
    int b4 = 0; for (int b = 0; b < NB; ++b) if (bl[b].ex) b4 |= (who(bl[b].conn) + 32 + (bl[b].hold ? 64 : 0)) << (8 * b);
    int hm = 0; for (int x = 0; x < NH; ++x) hm |= who(h[x]) << (8 * x);
    ev(E_OBS4, 0, sm, b4); ev(E_OBS5, 0, hm, 0);
    if (g_hobs) {
      auto one = [&](int idx, int c) {
        int must = 0, mustnot = 0, n = (int)con.size();
        for (int i = 0; i < n; ++i) { if (i == c) must |= 1 << i; else if ((cm >> i & 1) || (c >= 0 && (cm >> c & 1))) mustnot |= 1 << i; }
        ev(E_OBS6, idx, must | mustnot << 16, c < 0 ? 1 : (cm >> c & 1) ? 2 : 0);
      };
      for (int x = 0; x < NH; ++x) one(x, h[x]); for (int s = 0; s < NS; ++s) if (sc[s].ex) one(8 + s, sc[s].conn); for (int b = 0; b < NB; ++b) if (bl[b].ex) one(16 + b, bl[b].conn);
      for (int i = 0; i < (int)con.size(); ++i) one(32 + i, i);
    }
  }
  uint64_t key() const {       // canonical state for the count of distinct model states
    uint64_t k = 1469598103934665603ull; auto m = [&](int v) { k = (k ^ (uint64_t)(v + 77)) * 1099511628211ull; };
    for (int s = 0; s < NSV; ++s) { m(sv[s] < 0 ? sv[s] : 5); if (sv[s] >= 0) { m(combval(sv[s])); for (int c : impl[sv[s]].order) { m(c); m(connected(c)); m(blk(c)); m(con[c].kind * 8 + con[c].grp); } } }
    for (int i = 0; i < (int)con.size(); ++i) m(connected(i) * 2 + blk(i));
    for (auto o : own) m(o); for (auto& s : sc) { m(s.ex); m(s.conn); } for (auto& b : bl) { m(b.ex); m(b.conn); m(b.hold); } for (auto x : h) m(x); for (auto d : done) m(d);
    return k;
  }
};

// ------------------------------------------------------------------ one program
static bool judged(const std::string& prof, const std::string& m);
struct SeqTest : mc::Test {
  const Program& p; const std::string& prof; SeqTest(const Program& q, const std::string& pr): p(q), prof(pr) {}
  bool relevant(const std::string& m) const override { return judged(prof, m); }
  void setup() override {
    G = new World(); World& w = *G; w.prog = &p; w.tearing = false; w.ncon = 0; w.pending_fault = 0; w.arm = w.opno = w.looks = 0; w.failed = w.armed = false; w.emc = w.curem = w.depth = 0;
    for (int i = 0; i < MAXC; ++i) { w.tok[i] = w.done[i] = false; w.active[i] = 0; }
    w.sv[0].reset(newsig(0, 0)); w.sv[1].reset(newsig(0, 1));
    for (int j = 0; j < 2; ++j) { w.own[j] = boost::shared_ptr<Obj>(new Obj(j)); w.wk[j] = w.own[j]; }
    w.fown = std::shared_ptr<Obj>(new Obj(2)); w.fwk = w.fown; w.tobj.reset(new TObj(3));
    for (size_t i = 0; i < p.ops.size(); ++i) {
      mc::log(E_OP, (int)i); ++w.opno; const int no = w.opno, n = p.ops[i].code == ARM ? 0 : w.arm;
      if (!n) { run_op(p.ops[i]); continue; }
      struct Guard { ~Guard() { mc::fault_disarm(); G->armed = false; if (mc::fault_fired()) mc::log(E_FIRED); } } guard; w.arm = 0; w.failed = false; w.armed = true; mc::fault_arm(n);
      try { run_op(p.ops[i]); } catch (const mc::injected&) { failure(no, -1); } catch (const std::bad_alloc&) { failure(no, -1); }
    }
    mc::log(E_OP, 1000); observe();
    mc::log(E_OP, 1001); for (int s = 0; s < NSV; ++s) if (w.sv[s] && !w.sv[s]->null()) do_emit(s);
    mc::log(E_OP, 1002); observe();
    w.tearing = true; mc::log(E_OP, 1003);
    for (auto& s : w.sv) s.reset();
    int tm = 0, cm = 0; for (int i = 0; i < w.ncon; ++i) { if (w.tok[i] && w.kindof[i] != REF) tm |= 1 << i; if (w.K[i].connected() || !w.K[i].blocked()) cm |= 1 << i; }
    if (cm) mc::fail("CONNECTED a connection is connected after its signal was destroyed");
    if (tm) mc::fail("TOKEN a slot function outlives its signal");
    for (int i = 0; i < w.ncon; ++i) w.K[i].disconnect();
    for (auto& b : w.BL) if (b) { bool x = b->blocking(); b->block(); if (!b->blocking()) mc::fail("BLOCKING block() on a dead connection does not set blocking()"); b->unblock(); if (b->blocking()) mc::fail("BLOCKING unblock() on a dead connection leaves blocking()"); (void)x; }
    delete G; G = nullptr;
    if (mc::live_blocks()) mc::fail("LEAK memory leak: %zu blocks still allocated", mc::live_blocks());
  }
  std::string describe(const mc::Event& e) const override {
    char b[128];
    switch (e.kind) {
      case E_OP: if (e.a < 1000) return "op " + std::to_string(e.a) + ": " + Program::ostr(p.ops[e.a]); return e.a == 1000 ? "-- observe" : e.a == 1001 ? "-- final emission" : e.a == 1002 ? "-- observe" : "-- teardown";
      case E_CALL: snprintf(b, sizeof b, "  slot %d called, argument %d, emission %d", e.a, e.b, e.c); break;
      case E_RET: snprintf(b, sizeof b, "  slot %d returns", e.a); break;
      case E_RES: snprintf(b, sizeof b, "  emission %d returned %d", e.a, e.b); break;
      case E_EXC: snprintf(b, sizeof b, "  emission %d threw %d", e.a, e.b); break;
      case E_COMB: snprintf(b, sizeof b, "  combiner %d starts, state %d", e.a, e.b); break;
      case E_OBS1: snprintf(b, sizeof b, "  connected %x blocked %x", e.b, e.c); break;
      case E_OBS2: snprintf(b, sizeof b, "  signal %d num_slots %d empty %d combiner %d used %d null %d", e.a, e.b >> 1, e.b & 1, e.c >> 1 & 1023, e.c >> 11, e.c & 1); break;
      case E_OBS3: snprintf(b, sizeof b, "  slot functions alive %x, tracked objects alive %x", e.b & 0xffff, e.c); break;
      case E_CEND: snprintf(b, sizeof b, "  combiner past the last slot: slot functions alive %x", e.b & 0xffff); break;
      case E_LIVE: snprintf(b, sizeof b, "    at entry: slot functions alive %x, tracked objects alive %x", e.b & 0xffff, e.c); break;
      case E_OBS4: snprintf(b, sizeof b, "  scoped %x blocks %x", e.b, e.c); break;
      case E_OBS5: snprintf(b, sizeof b, "  handles %x", e.b); break;
      case E_TOK: snprintf(b, sizeof b, "  function of slot %d destroyed", e.a); break;
      case E_OBJ: snprintf(b, sizeof b, "  object %d destroyed", e.a); break;
      case E_SELF: snprintf(b, sizeof b, "    own connection: connected %d blocked %d", e.b, e.c); break;
      case E_OBS6: snprintf(b, sizeof b, "  handle #%d equals connections %x null %d", e.a, e.b, e.c); break;
      case E_FAULT: snprintf(b, sizeof b, "  connect of slot %d %s", e.a, e.b ? "failed" : "succeeded"); break;
      case E_FAIL: snprintf(b, sizeof b, "  the injected failure leaves operation number %d%s", e.a, e.b < 0 ? "" : " (an emission)"); break;
      case E_NUM: snprintf(b, sizeof b, "  num_slots %d empty %d", e.b, e.c); break;
      default: return Test::describe(e);
    }
    return b;
  }
  std::vector<Ev> expect;
  std::string oracle(const std::vector<mc::Event>& v) override {
    Model m; m.prog = &p; expect.clear(); m.out = &expect; std::vector<int> faults; for (auto& e : v) if (e.kind == E_FAULT) faults.push_back(e.b); m.faults = &faults; for (int q : faults) if (q) faulted = true; for (auto& e : v) if (e.kind == E_FIRED) fired = true;
    std::vector<Model::Fail> fails; for (auto& e : v) if (e.kind == E_FAIL) fails.push_back(Model::Fail{e.a, e.b}); m.fails = &fails;
    for (size_t i = 0; i < p.ops.size(); ++i) { m.ev(E_OP, (int)i); if (!m.applicable(p.ops[i])) return "harness: operation not applicable"; m.step(p.ops[i]); if (m.refused) return "harness: script not applicable"; }
    ++m.opno; m.ev(E_OP, 1000); m.observe(); m.ev(E_OP, 1001); for (int s = 0; s < NSV; ++s) if (m.has(s)) m.apply(O(EMIT, s)); m.ev(E_OP, 1002); m.observe(); m.ev(E_OP, 1003);
    if (m.refused) return "harness: script not applicable";
    // walk both
    size_t i = 0; char b[200];
    for (auto& e : v) {
      if (e.kind == E_TOK || e.kind == E_OBJ || e.kind == E_FIRED) continue;
      if (i >= expect.size()) return "TRACE more events than expected";
      const Ev& x = expect[i++];
      if (x.kind != e.kind || ((e.kind == E_CALL || e.kind == E_RES || e.kind == E_EXC || e.kind == E_COMB || e.kind == E_RET) && (x.a != e.a || (e.kind == E_COMB && x.b != e.b)))) return classify(v, x, e);
      switch (e.kind) {
        case E_CALL: if (x.b != e.b) { snprintf(b, sizeof b, "ARG slot %d got argument %d instead of %d", e.a, e.b, x.b); R(b); } break;
        case E_RES: if (x.b != e.b) { snprintf(b, sizeof b, "RESULT emission %d returned %d instead of %d", e.a, e.b, x.b); R(b); } break;
        case E_EXC: if (x.b != e.b) { snprintf(b, sizeof b, "EXC emission %d threw %d instead of %d", e.a, e.b, x.b); R(b); } break;
        case E_OBS1: if (x.b != e.b) { snprintf(b, sizeof b, "CONNECTED connected() mask %x, expected %x", e.b, x.b); R(b); } if (x.c != e.c) { snprintf(b, sizeof b, "BLOCKED blocked() mask %x, expected %x", e.c, x.c); R(b); } break;
        case E_OBS2: if (x.a != e.a || (x.c & 1) != (e.c & 1)) R("NULL a signal's null() is wrong"); if (x.b != e.b) { snprintf(b, sizeof b, "NUM signal %d: num_slots %d empty %d, expected %d %d", e.a, e.b >> 1, e.b & 1, x.b >> 1, x.b & 1); R(b); } if (x.c != e.c) { snprintf(b, sizeof b, "COMB signal %d has combiner %d used %d times, expected %d used %d times", e.a, e.c >> 1 & 1023, e.c >> 11, x.c >> 1 & 1023, x.c >> 11); R(b); } break;
        case E_NUM: if (x.b != e.b || x.c != e.c) { snprintf(b, sizeof b, "NUM num_slots %d empty %d, expected %d %d", e.b, e.c, x.b, x.c); R(b); } break;
        case E_OBS3: case E_CEND: case E_LIVE: { int unk = x.b >> 16 & 0xffff, want = x.b & 0xffff, got = e.b & 0xffff; if ((want ^ got) & ~unk) { snprintf(b, sizeof b, "TOKEN slot functions alive: %x, expected %x (unknown %x)%s", got, want, unk, e.kind == E_LIVE ? " at slot entry" : e.kind == E_CEND ? " when the combiner is past the last slot" : ""); R(b); } if (x.c != e.c) { snprintf(b, sizeof b, "OBJECT tracked objects alive: %x, expected %x%s", e.c, x.c, e.kind == E_LIVE ? " at slot entry" : ""); R(b); } break; }
        case E_OBS4: if (x.b != e.b) { snprintf(b, sizeof b, "SCOPED scoped connections %x, expected %x", e.b, x.b); R(b); } if (x.c != e.c) { snprintf(b, sizeof b, "BLOCKING block objects %x, expected %x", e.c, x.c); R(b); } break;
        case E_OBS5: if (x.b != e.b) { snprintf(b, sizeof b, "HANDLE handles %x, expected %x", e.b, x.b); R(b); } break;
        case E_OBS6: { int must = x.b & 0xffff, mustnot = x.b >> 16 & 0xffff; const char* pre = e.a >= 32 || e.a < 8 ? "HANDLE a connection" : e.a < 16 ? "SCOPED a scoped_connection" : "BLOCKING a block's connection";
          if (x.a != e.a || (must & ~e.b) || (mustnot & e.b)) { snprintf(b, sizeof b, "%s handle #%d equals connections %x, must equal %x and must not equal %x", pre, e.a, e.b, must, mustnot); R(b); }
          if ((x.c == 1 && !e.c) || (x.c == 2 && e.c)) { snprintf(b, sizeof b, "%s handle #%d is %snull", pre, e.a, e.c ? "" : "not "); R(b); } break; }
        case E_SELF: if (x.b != e.b || x.c != e.c) { snprintf(b, sizeof b, "SELF own connection of slot %d: connected %d blocked %d, expected %d %d", e.a, e.b, e.c, x.b, x.c); R(b); } break;
      }
    }
    if (i != expect.size()) return "TRACE fewer events than expected";
    return pending.empty() ? "" : pending;
  }
  std::string pending; bool faulted = false, fired = false;
  void R(const std::string& m) { if (pending.empty() && judged(prof, m)) pending = m; }
  std::string classify(const std::vector<mc::Event>& v, const Ev& x, const mc::Event& e) {
    if (!pending.empty()) return pending;
    if (x.kind == E_COMB && e.kind == E_COMB) { char b[80]; snprintf(b, sizeof b, "COMB combiner %d used %d times runs instead of %d used %d times", e.a, e.b, x.a, x.b); return b; }
    if ((x.kind == E_EXC) != (e.kind == E_EXC) && (x.kind == E_EXC || e.kind == E_EXC)) return "EXC an exception is lost or unexpected";
    // emission concerned: the one of the diverging call
    int em = e.kind == E_CALL ? e.c : x.kind == E_CALL ? x.c : e.kind == E_RES ? e.a : x.kind == E_RES ? x.a : -1;
    std::vector<int> a, bb; for (auto& q : v) if (q.kind == E_CALL && q.c == em) a.push_back(q.a); for (auto& q : expect) if (q.kind == E_CALL && q.c == em) bb.push_back(q.a);
    auto s = [](const std::vector<int>& z) { std::string r; for (int k : z) r += " " + std::to_string(k); return r; };
    std::string tail = " in emission " + std::to_string(em) + ": called" + s(a) + ", expected" + s(bb);
    std::vector<int> a2 = a, b2 = bb; std::sort(a2.begin(), a2.end()); std::sort(b2.begin(), b2.end());
    if (a2 == b2 && a != bb) return "ORDER slots in the wrong order" + tail;
    if (a2 != b2) { // order of the common ones
      std::vector<int> ca, cb; for (int k : a) if (std::count(bb.begin(), bb.end(), k)) ca.push_back(k); for (int k : bb) if (std::count(a.begin(), a.end(), k)) cb.push_back(k);
      std::string r = "CALLSET wrong slots" + tail; if (ca != cb) r += " (ORDER differs)"; return r;
    }
    return "TRACE unexpected event" + tail;
  }
};
static bool judged(const std::string& profile, const std::string& m) {
  std::string prof = profile.substr(0, 3);
  auto pre = [&](const char* x) { return m.compare(0, strlen(x), x) == 0; };
  auto has = [&](const char* x) { return m.find(x) != std::string::npos; };
  if (pre("harness") || has("NONDETERMINISM")) return true;
  bool lock = has("deadlock") || has("holding a mutex") || has("mutex it does not hold") || has("user mutex");
  if (pre("LEAK")) return prof == "C13" || prof == "C12";
  if (lock) return prof == "C26" || prof == "C12" || prof == "C03" || prof == "C24";
  bool tagged = pre("ORDER") || pre("CALLSET") || pre("TOKEN") || pre("OBJECT") || pre("CONNECTED") || pre("BLOCKED") || pre("BLOCKING") || pre("SCOPED") || pre("HANDLE") || pre("NUM") || pre("COMB") || pre("ARG") || pre("RESULT") || pre("EXC") || pre("SELF") || pre("TRACK") || pre("NULL");
  if (!tagged) return true;           // memory errors, crashes, assertion failures: nothing holds
  if (prof == "C26") return true;
  if (prof == "C24") return false;
  if (prof == "C01") return has("ORDER");
  if (prof == "C02") return pre("CALLSET") || pre("NUM") || pre("RESULT");
  if (prof == "C03") return pre("CALLSET") || pre("ORDER") || pre("RESULT") || pre("EXC") || pre("CONNECTED") || pre("TRACK") || pre("NUM");
  if (prof == "C04") return pre("CALLSET") || pre("CONNECTED") || pre("NUM");
  if (prof == "C05") return pre("CONNECTED") || pre("BLOCKED") || pre("HANDLE") || pre("CALLSET");
  if (prof == "C06") return pre("CONNECTED") || pre("SCOPED") || pre("HANDLE") || pre("CALLSET");
  if (prof == "C07") return pre("BLOCKED") || pre("BLOCKING") || pre("CALLSET");
  if (prof == "C08") return pre("CALLSET") || pre("CONNECTED") || pre("OBJECT") || pre("TRACK") || pre("NUM");
  if (prof == "C11") return pre("ARG") || pre("RESULT") || pre("SELF") || pre("CALLSET") || pre("CONNECTED");
  if (prof == "C12") return true;
  if (prof == "C13") return pre("TOKEN") || pre("OBJECT");
  if (prof == "C14") return pre("CONNECTED") || pre("CALLSET") || pre("ORDER") || pre("NULL") || pre("NUM") || pre("COMB") || pre("RESULT") || pre("OBJECT");
  if (prof == "C20") return pre("COMB") || pre("ORDER") || pre("CALLSET") || pre("CONNECTED") || pre("RESULT");
  if (prof == "C21") return true;
  return true;
}

// ------------------------------------------------------------------ enumeration
static Cli cli; static Agg agg; static uint64_t counter = 0; static double endt; static bool stop = false;
static std::unordered_set<uint64_t> states;
static uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static void run_program(const Program& p) {
  ++agg.planned;
  if ((agg.planned & 255) == 0 && wall() > endt) stop = true;
  if (stop) { ++agg.incomplete; return; }
  SeqTest t(p, cli.profile); mc::Options o; o.races = false;
  mc::Result r = mc::explore(t, o);
  uint64_t st = agg.states; agg.add(r); agg.states = st;      // states counted on the model
  agg.transitions += p.ops.size() + 2;
  g_faulted = t.faulted; g_fired = t.fired;
  if (r.violation) { if (agg.add_violation(p.str(), r)) stop = true; }
  else if (agg.programs % 5003 == 1) agg.sample(p.str() + " -> " + std::to_string(r.accesses) + " accesses, model and library agree");
}
// all sequences over 'alpha' of length 0..depth after 'base'; 'fin' is appended to each
struct Fam { Seq base; std::vector<Op> alpha; int depth; Seq fin; Seq script[MAXC]; bool only_full = false; };
static void enumerate(const Fam& f) {
  Program p; for (int i = 0; i < MAXC; ++i) p.script[i] = f.script[i];
  std::function<void(const Model&, int)> rec = [&](const Model& m, int left) {
    if (stop) return;
    if (!f.only_full || left == 0) {
      if (counter++ % cli.shards == (uint64_t)cli.shard) {
        Model q = m; q.prog = &p; bool ok = true; size_t n = p.ops.size();
        for (auto& o : f.fin) { if (!q.applicable(o)) continue; q.apply(o); if (q.refused) { ok = false; break; } p.ops.push_back(o); }
        for (int s = 0; ok && s < NSV; ++s) if (q.has(s)) { q.apply(O(EMIT, s)); ok = !q.refused; }
        if (ok) run_program(p);
        p.ops.resize(n);
      }
      states.insert(m.key());
    }
    if (!left) return;
    for (auto& o : f.alpha) if (m.applicable(o)) { Model q = m; q.prog = &p; q.apply(o); if (q.refused) continue; p.ops.push_back(o); rec(q, left - 1); p.ops.pop_back(); }
  };
  Model m; m.prog = &p; for (auto& o : f.base) { if (!m.applicable(o)) return; m.apply(o); if (m.refused) return; p.ops.push_back(o); }
  rec(m, f.depth);
}
static bool obs_handles(const std::string& p) { return p == "C05" || p == "C06" || p == "C26"; }
#include "seq_families.h"

int main(int argc, char** argv) {
  mc::init(); cli = parse_cli(argc, argv);
  if (!cli.replay.empty()) {
    FILE* f = fopen(cli.replay.c_str(), "r"); if (!f) { perror("replay"); return 3; } char line[65536]; Program p;
    while (fgets(line, sizeof line, f)) if (!strncmp(line, "program: ", 9)) { std::string s(line + 9); while (!s.empty() && s.back() == '\n') s.pop_back(); p = Program::parse(s); break; }
    fclose(f);
    g_hobs = obs_handles(cli.profile); SeqTest t(p, cli.profile); mc::Options o; o.races = false; auto r = mc::replay(t, o, {});
    printf("program: %s\n%s\n%s\n", p.str().c_str(), r.trace.c_str(), r.violation ? ("VIOLATED: " + r.message).c_str() : "no violation");
    return r.violation ? 1 : 0;
  }
  endt = wall() + cli.budget;
  g_hobs = obs_handles(cli.profile);
  families(cli.profile, cli.thorough());
  // every shard walks the whole model; only shard 0 reports its state count
  agg.states = cli.shard == 0 ? states.size() : 0; agg.outcomes = agg.states;
  agg.write(cli.out);
  return 0;
}
