// Concurrent programs on one shared signal, explored over all schedules.
#include "common.h"
#include <atomic>
#include <boost/signals2.hpp>
#include <memory>
#include <algorithm>
#include <functional>
using namespace boost::signals2;

// ------------------------------------------------------------------ programs
enum Code { EMIT, CON, CONX, CONT, DISC, DISG, DISF, DISA, BLK, UNB, BLT, DROP, SETC, GETC, NUM, EMP, CND, BLD, HND, SCO, KILL, KIN, DSIG, THR, NCODE };
static const char* NAMES[] = {"emit", "con", "conx", "cont", "disc", "disg", "disf", "disa", "blk", "unb", "blt", "drop", "setc", "getc", "num", "emp", "cnd", "bld", "hnd", "sco", "kill", "kin", "dsig", "thr"};
struct Op { int code, x, y; };
static Op O(int c, int x = 0, int y = 0) { return Op{c, x, y}; }
struct Program {
  int base = 0; std::vector<std::vector<Op>> th; std::vector<Op> script = std::vector<Op>(4, Op{-1, 0, 0}); bool dtor_reenter = false; int mode = 0;      // mode: how the combiner ends
  std::string str() const {
    auto o = [](const Op& p) { char b[48]; snprintf(b, sizeof b, "%s:%d:%d", NAMES[p.code], p.x, p.y); return std::string(b); };
    std::string s = "B" + std::to_string(base);
    for (auto& t : th) { s += "|"; for (size_t i = 0; i < t.size(); ++i) s += (i ? ";" : "") + o(t[i]); }
    for (int i = 0; i < 4; ++i) if (script[i].code >= 0) s += "|S" + std::to_string(i) + "=" + o(script[i]);
    if (dtor_reenter) s += "|R";
    if (mode) s += "|M" + std::to_string(mode);
    return s;
  }
  static Op parse_op(const std::string& s) {
    char nm[16]; int x = 0, y = 0; if (sscanf(s.c_str(), "%15[a-z]:%d:%d", nm, &x, &y) < 1) exit(3);
    for (int i = 0; i < NCODE; ++i) if (!strcmp(nm, NAMES[i])) return O(i, x, y);
    exit(3);
  }
  static Program parse(const std::string& s) {
    Program p; std::stringstream ss(s); std::string part; bool first = true;
    while (std::getline(ss, part, '|')) {
      if (first) { p.base = atoi(part.c_str() + 1); first = false; continue; }
      if (part == "R") { p.dtor_reenter = true; continue; }
      if (part[0] == 'M') { p.mode = atoi(part.c_str() + 1); continue; }
      if (part.size() > 2 && part[0] == 'S' && part[2] == '=') { p.script[part[1] - '0'] = parse_op(part.substr(3)); continue; }
      std::vector<Op> t; std::stringstream q(part); std::string o; while (std::getline(q, o, ';')) t.push_back(parse_op(o));
      p.th.push_back(t);
    }
    return p;
  }
};

// ------------------------------------------------------------------ world
static bool ujudged(const char* m);          // does the running profile judge this failure?
#define UFAIL(m) do { if (ujudged(m)) mc::fail(m); } while (0)
enum Kind { K_OPB = 1, K_OPE, K_ENTER, K_EXIT, K_DTOR, K_TOK, K_COMB, K_FIN, K_NEW };
enum { MAXC = 40, INNER = 30, MAXO = 3 };
static const int ALIVE = 0x600d, DEAD = 0xdead;
struct State;
static State* G = nullptr;
struct Token {                        // dies with the last copy of a connection's slot function
  int conn; int magic;
  explicit Token(int c): conn(c), magic(ALIVE) {}
  ~Token();
};
struct SlotF {
  int fn, conn, obj; boost::shared_ptr<Token> tok;
  SlotF(int f, int c, int o, bool live): fn(f), conn(c), obj(o) { if (live) tok.reset(new Token(c)); }
  int operator()(int a) const;
  bool operator==(const SlotF& o) const { return fn == o.fn; }
};
struct SlotX {                        // extended: receives its own connection
  SlotF f; explicit SlotX(const SlotF& s): f(s) {}
  int operator()(const connection& c, int a) const;
  bool operator==(const SlotX& o) const { return f == o.f; }
};
struct UserError {};
static int mode_of_program();
struct Comb {
  typedef int result_type; int id; int magic;
  Comb(int i = 0): id(i), magic(ALIVE) {}
  Comb(const Comb& o): id(o.id), magic(o.magic) { if (magic != ALIVE) mc::fail("combiner copied from a dead combiner"); }
  ~Comb() { magic = DEAD; }
  Comb& operator=(const Comb& o) { id = o.id; return *this; }
  template <class It> int operator()(It f, It l) const {
    if (mc::locks_held()) UFAIL("LOCK combiner runs while its thread holds a library mutex");
    int mine = id; mc::log(K_COMB, mine);
    int r = -1, mode = mode_of_program();      // 1: ends after the first result, 2: one step later, 3: throws, 4: calls nothing
    while (f != l) {
      if (mode == 4) break;
      r = *f;
      if (mode == 1) break;
      if (mode == 3) throw UserError();
      if (mc::locks_held()) UFAIL("LOCK combiner runs while its thread holds a library mutex");
      ++f;
      if (magic != ALIVE) UFAIL("COMB the combiner was destroyed while an emission was running it");
      if (id != mine) UFAIL("COMB the combiner was replaced in place while an emission was running it");
      if (mode == 2) break;
    }
    return r;
  }
};
typedef signal<int(int), Comb> Sig;
typedef Sig InSig;
struct Obj { int j; int magic; explicit Obj(int j): j(j), magic(ALIVE) {} ~Obj(); };
struct State {
  std::unique_ptr<Sig> sig; std::unique_ptr<InSig> inner, other;
  connection con[mc::MAX_THREADS + 1][MAXC];            // [thread][connection]: handles are per thread
  boost::shared_ptr<Obj> own[2]; std::shared_ptr<Obj> fown;   // owners (objects 0,1 boost; 2 foreign)
  boost::weak_ptr<Obj> wk[mc::MAX_THREADS + 1][2]; std::weak_ptr<Obj> fwk[mc::MAX_THREADS + 1];
  Obj* raw[MAXO]; std::atomic<bool> gone[MAXO];
  shared_connection_block blk[mc::MAX_THREADS + 1][4]; int nblk[mc::MAX_THREADS + 1];
  int cur[mc::MAX_THREADS + 1], nem[mc::MAX_THREADS + 1], nop[mc::MAX_THREADS + 1], ncon[mc::MAX_THREADS + 1], depth[mc::MAX_THREADS + 1];
  bool done[mc::MAX_THREADS + 1][MAXC];
  const Program* prog; bool tearing;
};
static void run_op(const Op& o);
static int mode_of_program() { return G->prog->mode; }
static void user_entry() { if (mc::locks_held()) UFAIL("LOCK user code runs while its thread holds a library mutex"); }
Token::~Token() {
  if (magic != ALIVE) mc::fail("SLOTMEM slot function destroyed twice");
  magic = DEAD; int c = conn;
  if (mc::locks_held()) UFAIL("LOCK a slot function is destroyed while a library mutex is held");
  if (c == INNER) mc::log_both(K_TOK, c); else mc::log(K_TOK, c);
  if (G->prog->dtor_reenter && !G->tearing && G->sig) { (void)G->sig->num_slots(); }
}
Obj::~Obj() {
  int k = j;
  if (mc::locks_held()) UFAIL("LOCK a tracked object is destroyed while a library mutex is held");
  mc::log_both(K_DTOR, k);
  if (G->prog->dtor_reenter && !G->tearing && G->sig) { (void)G->sig->num_slots(); }
  magic = DEAD;
}
static int slot_body(int conn, int obj, const Token* tok, int a, const connection* self) {
  int t = mc::tid(); State& s = *G;
  user_entry();
  mc::log_end(K_ENTER, conn, s.cur[t]);
  if (tok->magic != ALIVE || tok->conn != conn) mc::fail("SLOTMEM a slot runs on a destroyed slot function");
  if (obj >= 0 && s.raw[obj]->magic != ALIVE) UFAIL("TRACK a slot runs on a destroyed tracked object");
  int sc = conn < 4 ? conn : -1; bool throws = false;
  if (self && !(*self == s.con[t][conn]) && conn < 4 && s.con[t][conn] != connection()) mc::fail("extended slot received a foreign connection");
  if (sc >= 0 && s.prog->script[sc].code >= 0 && !s.done[t][conn] && !s.tearing) {
    s.done[t][conn] = true;
    Op o = s.prog->script[sc];
    if (self && o.code == DISC && o.x == conn) {
      int id = t * 64 + 32 + s.nop[t]++; mc::log_begin(K_OPB, DISC, conn, id); self->disconnect(); mc::log_end(K_OPE, DISC, 0, id);
    } else if (o.code == THR) throws = true;
    else run_op(o);
  }
  if (obj >= 0 && s.raw[obj]->magic != ALIVE) UFAIL("TRACK a tracked object was destroyed while its slot runs");
  if (tok->magic != ALIVE || tok->conn != conn) mc::fail("SLOTMEM a slot function was destroyed while it runs");
  mc::log_begin(K_EXIT, conn, s.cur[t]);
  if (throws) throw UserError();
  return conn * 16 + a;
}
int SlotF::operator()(int a) const { return slot_body(conn, obj, tok.get(), a, 0); }
int SlotX::operator()(const connection& c, int a) const { return slot_body(f.conn, f.obj, f.tok.get(), a, &c); }

static int gval(int g) { return g == 0 ? 5 : g == 1 ? 0 : 2147483647; }      // group values: the default one and an extreme one
static connection do_connect(int t, int id, const Op& o) {
  State& s = *G; Sig& g = *s.sig;
  connect_position pos = (o.x & 1) ? at_front : at_back; int grp = o.y;
  if (o.code == CON) { SlotF f(id & 3, id, -1, true); return grp ? g.connect(gval(grp), f, pos) : g.connect(f, pos); }
  if (o.code == CONX) { Sig::extended_slot_type f((SlotX(SlotF(id & 3, id, -1, true)))); return grp ? g.connect_extended(gval(grp), f, pos) : g.connect_extended(f, pos); }
  int j = o.x; Sig::slot_type sl(SlotF(id & 3, id, j, true));
  for (int n = s.prog->base == 12 && t == 0 ? 12 : 1; n; --n) { if (j < 2) sl.track(s.wk[t][j]); else sl.track_foreign(s.fwk[t]); }
  return g.connect(sl);
}
static void run_op(const Op& o) {
  State& s = *G; int t = mc::tid(); int uid = t * 64 + s.nop[t]++; int res = 0; int arg = o.x;
  if (o.code == EMIT) {
    int save = s.cur[t]; mc::log_begin(K_OPB, EMIT, 0, uid); s.cur[t] = uid;
    if (++s.depth[t] > 3) mc::fail("harness: nesting");
    try { res = (t + s.prog->base + s.depth[t]) & 1 ? (*s.sig)(t) : const_cast<const Sig&>(*s.sig)(t); } catch (UserError&) { res = -2; if (mc::locks_held()) UFAIL("LOCK an emission left by an exception keeps a mutex"); }
    --s.depth[t]; s.cur[t] = save; mc::log_end(K_OPE, EMIT, res, uid); return;
  }
  if (o.code == CON || o.code == CONX || o.code == CONT) {
    int id = 6 + t * 4 + s.ncon[t]++;
    // K_NEW carries the kind of connection: b = tracked object + 1, c = position*8 + group
    mc::log(K_NEW, id, o.code == CONT ? o.x + 1 : 0, o.code == CONT ? 0 : (o.x & 1) * 8 + o.y);
    mc::log_begin(K_OPB, o.code, id, uid);
    s.con[t][id] = do_connect(t, id, o);
    mc::log_end(K_OPE, o.code, id, uid); return;
  }
  mc::log_begin(K_OPB, o.code, arg, uid);
  switch (o.code) {
    case DISC: s.con[t][o.x].disconnect(); break;
    case DISG: s.sig->disconnect(gval(o.x)); break;
    case DISF: s.sig->disconnect(SlotF(o.x, -1, -1, false)); break;
    case DISA: s.sig->disconnect_all_slots(); break;
    case BLK: { int k = s.nblk[t]++; s.blk[t][k] = shared_connection_block(s.con[t][o.x]); if (!s.blk[t][k].blocking()) mc::fail("blocking() is false after block()"); break; }
    case UNB: { int k = s.nblk[t] - 1; s.blk[t][k].unblock(); if (s.blk[t][k].blocking()) mc::fail("blocking() is true after unblock()"); break; }
    case BLT: { shared_connection_block b(s.con[t][o.x]); shared_connection_block c(b); b.unblock(); if (!c.blocking()) mc::fail("copy of a block does not block"); break; }
    case DROP: { boost::shared_ptr<Obj> b; std::shared_ptr<Obj> f;        // the owner is dropped once, by the first thread to come here
      if (!s.gone[o.x].exchange(true)) { if (o.x < 2) b.swap(s.own[o.x]); else f.swap(s.fown); } break; }
    case SETC: s.sig->set_combiner(Comb(o.x)); break;
    case GETC: { Comb c = s.sig->combiner(); res = c.id; break; }
    case NUM: res = (int)s.sig->num_slots(); break;
    case EMP: res = s.sig->empty(); break;
    case CND: res = s.con[t][o.x].connected(); break;
    case BLD: res = s.con[t][o.x].blocked(); break;
    case HND: { connection a(s.con[t][o.x]), b; if (!(a == s.con[t][o.x])) { if (!s.con[t][o.x].connected()) break; mc::fail("a copied connection differs from the original"); } b = a; swap(a, b); connection m(std::move(b)); if (b != connection()) mc::fail("moved-from connection is not null"); (void)(m < a); break; }
    case SCO: { scoped_connection sc(s.con[t][o.x]); break; }
    case KILL: s.sig.reset(); break;
    case KIN: s.inner.reset(); break;
    case DSIG: s.sig->disconnect(o.x ? *s.other : *s.inner); break;
  }
  mc::log_end(K_OPE, o.code, res, uid);
}
static void base_connect(int id, int code, int x, int y) { State& s = *G; mc::log(K_NEW, id, code == CONT ? x + 1 : 0, code == CONT ? 0 : (x & 1) * 8 + y); mc::log(K_OPB, code, id, -id - 1); s.con[0][id] = do_connect(0, id, O(code, x, y)); mc::log(K_OPE, code, id, -id - 1); }
static void base_disconnect(int id) { mc::log(K_OPB, DISC, id, -100 - id); G->con[0][id].disconnect(); mc::log(K_OPE, DISC, 0, -100 - id); }
struct Quiet { int operator()(int) const { mc::fail("a disconnected slot is called"); return 0; } };
static void build_base(int b) {
  switch (b) {
    case 0: base_connect(0, CON, 0, 0); base_connect(1, CON, 0, 0); break;
    case 1: base_connect(0, CON, 1, 0); base_connect(1, CON, 0, 1); base_connect(2, CON, 0, 0); break;
    case 2: base_connect(0, CON, 0, 0); base_connect(1, CON, 0, 0); base_connect(2, CON, 0, 0); base_disconnect(1); break;
    case 3: base_connect(0, CONT, 0, 0); base_connect(1, CON, 0, 0); break;
    case 4: base_connect(0, CON, 0, 0); base_connect(1, CONT, 0, 0); base_connect(2, CONT, 2, 0); break;
    case 5: base_connect(0, CONX, 0, 0); base_connect(1, CONX, 0, 1); break;
    case 6: base_connect(0, CON, 0, 1); base_connect(1, CON, 0, 1); base_connect(2, CON, 0, 2); break;
    case 7: break;
    case 8: base_connect(0, CON, 0, 0); base_connect(1, CON, 0, 0); base_connect(2, CON, 0, 0); base_connect(3, CON, 0, 0); base_disconnect(0); base_disconnect(1); base_disconnect(2); break;
    case 9: {
      mc::log(K_NEW, 0, 0, 0); mc::log(K_OPB, CON, 0, -1); G->con[0][0] = G->sig->connect(*G->inner); mc::log(K_OPE, CON, 0, -1);
      mc::log(K_NEW, INNER, 0, 0); mc::log(K_OPB, CON, INNER, -2); G->con[0][INNER] = G->inner->connect(SlotF(0, INNER, -1, true)); mc::log(K_OPE, CON, INNER, -2);
      base_connect(1, CON, 0, 0); break;
    }
    case 10: base_connect(0, CONT, 2, 0); break;
    case 11: base_connect(0, CON, 0, 0); break;
    case 12: base_connect(0, CONT, 0, 0); base_connect(1, CON, 0, 0); break;      // more tracked objects than fit into the built-in buffer
    case 13: {      // more dead entries (disconnected, expired) than fit into the built-in buffer
      boost::shared_ptr<int> o(new int(1)); std::vector<connection> k; for (int i = 0; i < 14; ++i) { Sig::slot_type sl((Quiet())); if (i & 1) sl.track(o); k.push_back(G->sig->connect(sl)); if (i == 2) base_connect(0, CON, 0, 0); } base_connect(1, CON, 0, 0);
      for (int i = 0; i < 14; i += 2) k[i].disconnect(); o.reset(); break; }
  }
}

#define REP(m) do { std::string q_ = (m); if (judged(prof, q_)) return q_; } while (0)
static bool judged(const std::string& prof, const char* m);
static bool judged(const std::string& prof, const std::string& m) { return judged(prof, m.c_str()); }
struct ConcTest : mc::Test {
  bool relevant(const std::string& m) const override { return judged(prof, m); }
  Program p; std::string prof; ConcTest(const Program& q, const std::string& pr): p(q), prof(pr) {}
  int threads() const override { return (int)p.th.size(); }
  void setup() override {
    G = new State(); State& s = *G; s.prog = &p; s.tearing = false;
    s.sig.reset(new Sig); s.inner.reset(new InSig); s.other.reset(new InSig);
    for (int j = 0; j < 2; ++j) { s.own[j] = boost::shared_ptr<Obj>(new Obj(j)); s.raw[j] = s.own[j].get(); }
    s.fown = std::shared_ptr<Obj>(new Obj(2)); s.raw[2] = s.fown.get();
    for (int t = 0; t <= mc::MAX_THREADS; ++t) { for (int j = 0; j < 2; ++j) s.wk[t][j] = s.own[j]; s.fwk[t] = s.fown; s.cur[t] = -1; }
    build_base(p.base);
    for (int t = 1; t <= mc::MAX_THREADS; ++t) for (int c = 0; c < 4; ++c) s.con[t][c] = s.con[0][c];
  }
  void thread(int i) override { for (auto& o : p.th[i]) run_op(o); }
  void finish() override {
    State& s = *G; mc::log(K_FIN);
    s.done[0][0] = s.done[0][1] = s.done[0][2] = s.done[0][3] = true;
    for (int t = 1; t <= (int)p.th.size(); ++t) for (int c = 6 + t * 4; c < 6 + t * 4 + s.ncon[t]; ++c) s.con[0][c] = s.con[t][c];
    s.ncon[0] = 0;
    auto q = [&](Op o) { run_op(o); };
    if (s.sig) { q(O(NUM)); q(O(EMIT)); }
    for (int c = 0; c < INNER; ++c) if (c < 4 || (c >= 10 && c < 6 + 4 * 4 + 4 && s.con[0][c] != connection())) { q(O(CND, c)); q(O(BLD, c)); }
    if (s.sig) { q(O(NUM)); q(O(EMP)); q(O(GETC)); q(O(EMIT)); }
    s.tearing = true;
    s.sig.reset(); s.inner.reset(); s.other.reset();
    for (int c = 0; c < MAXC; ++c) if (s.con[0][c].connected()) mc::fail("a connection is connected after its signal was destroyed");
    delete G; G = nullptr;
    if (mc::live_blocks()) mc::fail("memory leak: %zu blocks still allocated", mc::live_blocks());
  }
  std::string describe(const mc::Event& e) const override {
    char b[128]; const char* on = (e.kind == K_OPB || e.kind == K_OPE) && e.a >= 0 && e.a < NCODE ? NAMES[e.a] : "";
    switch (e.kind) {
      case K_OPB: snprintf(b, sizeof b, "[T%d] %s(%d) begins  #%d", e.tid, on, e.b, e.c); break;
      case K_OPE: snprintf(b, sizeof b, "[T%d] %s returned %d  #%d", e.tid, on, e.b, e.c); break;
      case K_ENTER: snprintf(b, sizeof b, "[T%d] slot %d entered (emission #%d)", e.tid, e.a, e.b); break;
      case K_EXIT: snprintf(b, sizeof b, "[T%d] slot %d leaves (emission #%d)", e.tid, e.a, e.b); break;
      case K_DTOR: snprintf(b, sizeof b, "[T%d] tracked object %d destroyed", e.tid, e.a); break;
      case K_TOK: snprintf(b, sizeof b, "[T%d] function of slot %d destroyed", e.tid, e.a); break;
      case K_COMB: snprintf(b, sizeof b, "[T%d] combiner %d starts", e.tid, e.a); break;
      case K_FIN: snprintf(b, sizeof b, "---- all threads ended"); break;
      case K_NEW: snprintf(b, sizeof b, "[T%d] connection %d: tracks %d, position/group %d", e.tid, e.a, e.b - 1, e.c); break;
      default: return Test::describe(e);
    }
    return b;
  }
  uint64_t outcome(const std::vector<mc::Event>& v) const override {   // results and call sequences, not timing
    std::map<int, uint64_t> h; for (auto& e : v) if (e.kind == K_OPE || e.kind == K_ENTER || e.kind == K_COMB) h[e.tid] = h[e.tid] * 1000003u + e.kind * 7919u + e.a * 31u + (e.kind == K_OPE ? e.b : 0) + 1;
    uint64_t r = 7; for (auto& x : h) r = r * 0x9E3779B97F4A7C15ull + x.second; return r;
  }
  // ---------------------------------------------------------------- oracle
  struct OpR { int code, x, uid, tid, b, e, res; };
  struct Con { bool used = false; int obj = -1, front = 0, grp = 0, b = 1 << 30, e = 1 << 30, tok = -1, tidc = 0; };
  struct Call { int conn, enter, exit; };
  struct Em { int b, e, comb, combt, res; std::vector<Call> calls; };
  static int fn_of(int c) { return c & 3; }
  std::string oracle(const std::vector<mc::Event>& v) override {
    const int INF = 1 << 30;
    std::vector<OpR> ops; std::map<int, size_t> open; Con con[MAXC]; int dtor[MAXO] = {INF, INF, INF}, ndtor[MAXO] = {0, 0, 0}, fin = INF;
    std::map<int, Em> ems; char buf[256];
    for (int i = 0; i < (int)v.size(); ++i) {
      const mc::Event& e = v[i];
      switch (e.kind) {
        case K_NEW: { Con& c = con[e.a]; c.used = true; c.obj = e.b - 1; c.front = e.c / 8; c.grp = e.c % 8; break; }
        case K_OPB: open[e.c] = ops.size(); ops.push_back(OpR{e.a, e.b, e.c, e.tid, i, INF, 0});
          if (e.a == CON || e.a == CONX || e.a == CONT) { con[e.b].b = i; con[e.b].tidc = e.tid; }
          if (e.a == EMIT) { Em m; m.b = i; m.e = INF; m.comb = -1; m.combt = INF; m.res = 0; ems[e.c] = m; }
          break;
        case K_OPE: { OpR& o = ops[open[e.c]]; o.e = i; o.res = e.b;
          if (e.a == CON || e.a == CONX || e.a == CONT) con[e.b].e = i;
          if (e.a == EMIT) { ems[e.c].e = i; ems[e.c].res = e.b; }
          break; }
        case K_ENTER: ems[e.b].calls.push_back(Call{e.a, i, INF}); break;
        case K_EXIT: { auto& cs = ems[e.b].calls; for (size_t k = cs.size(); k-- > 0;) if (cs[k].conn == e.a && cs[k].exit == INF) { cs[k].exit = i; break; } break; }
        case K_DTOR: if (dtor[e.a] == INF) dtor[e.a] = i; ++ndtor[e.a]; break;
        case K_TOK: con[e.a].tok = i; break;
        case K_COMB: { // emission of this thread that has no combiner yet, innermost
          Em* best = 0; int bu = -1; for (auto& m : ems) if (m.first / 64 == e.tid && m.second.combt == INF && m.second.b < i && m.second.b > bu) { best = &m.second; bu = m.second.b; }
          if (best) { best->comb = e.a; best->combt = i; } break; }
        case K_FIN: fin = i; break;
      }
    }
    // permanent disabling of connection c: possible from 'pb', definite from 'de'; explicit marks a disconnect call
    struct Dis { int pb, de; bool expl; };
    std::vector<Dis> dis[MAXC]; struct Blk { int b, e, rb, re; }; std::vector<Blk> blks[MAXC];
    std::map<int, std::vector<std::pair<int, Blk>>> held;   // thread -> stack of (conn, block)
    for (auto& o : ops) {
      auto bulk = [&](int c) { if (!con[c].used) return; if (con[c].b < o.e) dis[c].push_back(Dis{o.b, con[c].e < o.b ? o.e : INF, con[c].e < o.b}); };
      switch (o.code) {
        case DISC: case SCO: if (o.x >= 0 && con[o.x].used) dis[o.x].push_back(Dis{o.b, o.e, true}); if (o.x == 0 && p.base == 9) dis[INNER].push_back(Dis{o.b, o.e, false}); break;
        case DISG: for (int c = 0; c < INNER; ++c) if (con[c].used && con[c].grp == o.x) bulk(c); break;
        case DISF: for (int c = 0; c < INNER; ++c) if (con[c].used && fn_of(c) == o.x && !(p.base == 9 && c == 0) && !is_ext(c)) bulk(c); break;
        case DISA: for (int c = 0; c < MAXC; ++c) bulk(c); break;
        case KILL: for (int c = 0; c < MAXC; ++c) bulk(c); break;
        case DSIG: if (o.x) break; bulk(0); bulk(INNER); break;
        case KIN: dis[0].push_back(Dis{o.b, con[INNER].tok >= 0 ? con[INNER].tok : INF, false}); dis[INNER].push_back(Dis{o.b, con[INNER].tok >= 0 ? con[INNER].tok : INF, false}); break;
        case DROP: for (int c = 0; c < MAXC; ++c) if (con[c].used && con[c].obj == o.x) dis[c].push_back(Dis{o.b, dtor[o.x], false}); break;
        case BLK: blks[o.x].push_back(Blk{o.b, o.e, INF, INF}); held[o.tid].push_back({o.x, Blk{(int)blks[o.x].size() - 1, 0, 0, 0}}); if (o.x == 0 && p.base == 9) blks[INNER].push_back(Blk{o.b, o.e, INF, INF}); break;
        case BLT: blks[o.x].push_back(Blk{o.b, INF, o.b, o.e}); if (o.x == 0 && p.base == 9) blks[INNER].push_back(Blk{o.b, INF, o.b, o.e}); break;
        case UNB: if (!held[o.tid].empty()) { auto h = held[o.tid].back(); held[o.tid].pop_back(); Blk& bl = blks[h.first][h.second.b]; bl.rb = o.b; bl.re = o.e; if (h.first == 0 && p.base == 9) for (auto& x : blks[INNER]) if (x.b == bl.b) { x.rb = o.b; x.re = o.e; } } break;
      }
    }
    for (int j = 0; j < MAXO; ++j) {
      if (ndtor[j] > 1) REP("TRACK tracked object destroyed twice");
      for (auto& o : ops) if (o.code == DROP && o.x == j && dtor[j] > fin) REP("TRACK a released tracked object is still alive after all threads ended");
    }
    auto perm_possible = [&](int c, int before) { for (auto& d : dis[c]) if (d.pb < before) return true; return false; };
    auto perm_definite = [&](int c, int at) { for (auto& d : dis[c]) if (d.de < at) return true; return false; };
    auto blk_possible = [&](int c, int b, int e) { for (auto& x : blks[c]) if (x.b < e && x.re > b) return true; return false; };
    auto blk_definite = [&](int c, int b, int e) { for (auto& x : blks[c]) if (x.e < b && x.rb > e) return true; return false; };
    // emissions
    for (auto& em : ems) {
      const Em& E = em.second; int uid = em.first;
      std::vector<int> seen(MAXC, 0); int prev = E.b;
      if (E.combt == INF) REP("emission did not run the combiner");
      for (size_t k = 0; k < E.calls.size(); ++k) {
        const Call& c = E.calls[k]; const Con& cc = con[c.conn];
        if (seen[c.conn]++) { snprintf(buf, sizeof buf, "emission #%d called slot %d twice", uid, c.conn); REP(buf); }
        if (perm_definite(c.conn, prev)) { snprintf(buf, sizeof buf, "emission #%d called slot %d although it was disconnected before", uid, c.conn); REP(buf); }
        if (blk_definite(c.conn, prev, c.enter)) { snprintf(buf, sizeof buf, "BLOCK emission #%d called slot %d although it was blocked", uid, c.conn); REP(buf); }
        if (cc.b > E.combt) { snprintf(buf, sizeof buf, "emission #%d called slot %d which was connected after the emission had started", uid, c.conn); REP(buf); }
        if (cc.obj >= 0 && dtor[cc.obj] < c.exit) { snprintf(buf, sizeof buf, "TRACK slot %d ran in emission #%d while its tracked object was destroyed", c.conn, uid); REP(buf); }
        prev = c.exit;
        for (size_t m = 0; m < k; ++m) {           // E.calls[m] ran before c
          int r = must_precede(con, c.conn, E.calls[m].conn);
          if (r) { snprintf(buf, sizeof buf, "ORDER emission #%d called slot %d before slot %d", uid, E.calls[m].conn, c.conn); REP(buf); }
        }
      }
      // an emission which its combiner or an exception ends owes calls only to the slots before the last one called
      bool thrown = E.res == -2, may_throw = p.mode == 3; for (auto& o : p.script) if (o.code == THR) may_throw = true;
      if (thrown && (!may_throw || E.calls.empty())) { snprintf(buf, sizeof buf, "emission #%d threw", uid); REP(buf); }
      if (p.mode == 3 && !thrown && !E.calls.empty()) { snprintf(buf, sizeof buf, "emission #%d lost the exception of its combiner", uid); REP(buf); }
      if (p.mode == 4 && !E.calls.empty()) { snprintf(buf, sizeof buf, "emission #%d called a slot although its combiner called none", uid); REP(buf); }
      if (p.mode && E.calls.size() > 1) { snprintf(buf, sizeof buf, "emission #%d called more slots than its combiner", uid); REP(buf); }
      bool cut = thrown || p.mode == 4 || (p.mode && !E.calls.empty()); int lastc = E.calls.empty() ? -1 : E.calls.back().conn;
      for (int c = 0; c < MAXC; ++c) if (con[c].used && !seen[c] && !(p.base == 9 && c == 0)) {
        if (cut && (lastc < 0 || !must_precede(con, c, lastc))) continue;
        if (con[c].e < E.b && !perm_possible(c, E.e) && !blk_possible(c, E.b, E.e)) { snprintf(buf, sizeof buf, "emission #%d did not call slot %d, which was connected throughout", uid, c); REP(buf); }
      }
      // result: value of the last slot called directly by this emission
      int want = -1; if (!E.calls.empty()) { int last = E.calls.back().conn; int t = uid / 64; want = thrown ? -2 : last * 16 + t; }
      if (p.base == 9 && !E.calls.empty() && E.calls.back().conn == INNER) { /* forwarded value */ }
      if (E.res != want && !(p.base == 9 && E.calls.empty() ) && !(p.base == 9 && !seen[1])) { snprintf(buf, sizeof buf, "emission #%d returned %d instead of %d", uid, E.res, want); REP(buf); }
      // combiner used
      std::string m = comb_ok(ops, E.comb, E.b, E.combt); if (!m.empty()) { snprintf(buf, sizeof buf, "COMB emission #%d: %s", uid, m.c_str()); REP(buf); }
    }
    // queries
    for (auto& o : ops) {
      int c = o.x;
      if (o.code == CND && c < MAXC) {
        if (!con[c].used) { if (o.res) REP("connected() true for a null connection"); continue; }
        if (o.res && perm_definite(c, o.b)) { snprintf(buf, sizeof buf, "connected() of connection %d is true after it was disconnected (#%d)", c, o.uid); REP(buf); }
        if (!o.res && con[c].e < o.b && !perm_possible(c, o.e)) { snprintf(buf, sizeof buf, "connected() of connection %d is false although nothing disconnected it (#%d)", c, o.uid); REP(buf); }
      } else if (o.code == BLD && c < MAXC) {
        if (!con[c].used) continue;
        if (!o.res && (perm_definite(c, o.b) || blk_definite(c, o.b, o.e))) { snprintf(buf, sizeof buf, "BLOCK blocked() of connection %d is false although it is %s (#%d)", c, perm_definite(c, o.b) ? "disconnected" : "blocked", o.uid); REP(buf); }
        if (o.res && con[c].e < o.b && !perm_possible(c, o.e) && !blk_possible(c, o.b, o.e)) { snprintf(buf, sizeof buf, "BLOCK blocked() of connection %d is true although it is neither blocked nor disconnected (#%d)", c, o.uid); REP(buf); }
      } else if (o.code == NUM || o.code == EMP) {
        int lo = 0, hi = 0;
        for (int k = 0; k < INNER; ++k) if (con[k].used) {
          if (con[k].e < o.b && !perm_possible(k, o.e)) ++lo;
          if (con[k].b < o.e && !perm_definite(k, o.b)) ++hi;
        }
        if (o.code == NUM && (o.res < lo || o.res > hi)) { snprintf(buf, sizeof buf, "num_slots() returned %d, possible are %d..%d (#%d)", o.res, lo, hi, o.uid); REP(buf); }
        if (o.code == EMP && ((o.res && lo > 0) || (!o.res && hi == 0))) { snprintf(buf, sizeof buf, "empty() returned %d with %d..%d slots (#%d)", o.res, lo, hi, o.uid); REP(buf); }
      } else if (o.code == GETC) {
        std::string m = comb_ok(ops, o.res, o.b, o.e); if (!m.empty()) REP("COMB combiner(): " + m);
      }
    }
    // function of an explicitly disconnected slot is gone once no emission runs
    for (int c = 0; c < INNER; ++c) if (con[c].used) for (auto& d : dis[c]) if (d.expl && d.de < fin && (con[c].tok < 0 || con[c].tok > fin) && !(p.base == 9 && c == 0)) {
      snprintf(buf, sizeof buf, "RELEASE function of disconnected slot %d still exists after all threads ended", c); REP(buf); }
    return "";
  }
  bool is_ext(int c) const {
    if (p.base == 5 && c < 2) return true;
    if (c >= 10) { int t = (c - 6) / 4 - 1, k = (c - 6) % 4; if (t >= 0 && t < (int)p.th.size()) { int n = 0; for (auto& o : p.th[t]) if (o.code == CON || o.code == CONX || o.code == CONT) { if (n == k) return o.code == CONX; ++n; } } }
    return false;
  }
  static bool must_precede(const Con* con, int a, int b) {   // a must be called before b
    int ka = a == INNER ? 0 : a, kb = b == INNER ? 0 : b;
    const Con &A = con[ka], &B = con[kb];
    auto meta = [](const Con& c) { return c.grp ? 1 : c.front ? 0 : 2; };
    if (meta(A) != meta(B)) return meta(A) < meta(B);
    if (meta(A) == 1 && A.grp != B.grp) return A.grp < B.grp;
    if (A.e < B.b) return !B.front;       // b joined later: behind a unless at_front
    if (B.e < A.b) return A.front;
    return false;
  }
  static std::string comb_ok(const std::vector<OpR>& ops, int id, int b, int t) {
    char buf[160]; const OpR* s = 0; for (auto& o : ops) if (o.code == SETC && o.x == id) s = &o;
    int se = -1;
    if (id != 0) { if (!s || s->b > t) { snprintf(buf, sizeof buf, "combiner %d was never set before", id); return buf; } se = s->e; }
    for (auto& o : ops) if (o.code == SETC && o.x != id && o.b > se && o.e < b) { snprintf(buf, sizeof buf, "combiner %d was used although combiner %d had replaced it", id, o.x); return buf; }
    return "";
  }
};

// ------------------------------------------------------------------ program families
typedef std::vector<Op> Seq;
struct Plan { Program p; int bound; };
static std::vector<Plan> plans; static int g_mode = 0;
static void add(int base, std::vector<Seq> th, int bound, std::vector<std::pair<int, Op>> scripts = {}, bool re = false) {
  Program p; p.base = base; p.th = th; p.mode = g_mode; p.dtor_reenter = re; for (auto& s : scripts) p.script[s.first] = s.second;
  // combiner ids must be unique per program; give each set_combiner its own
  int id = 1; for (auto& t : p.th) for (auto& o : t) if (o.code == SETC) o.x = id++; for (auto& o : p.script) if (o.code == SETC) o.x = id++;
  // an object has one owner: only one thread may drop it; a block is released by the thread that made it
  int drops[3] = {0, 0, 0}, kills = 0, kin = 0, dsig = 0; bool em = false;
  for (auto& t : p.th) { int nb = 0; for (auto& o : t) { if (o.code == DROP && ++drops[o.x] > 1) return; if (o.code == BLK) ++nb; if (o.code == UNB && --nb < 0) return; if (o.code == KILL) ++kills; if (o.code == KIN) ++kin; if (o.code == DSIG && !o.x) { ++dsig; if (kin) return; } if (o.code == EMIT) em = true; (void)em; } if (nb > 3) return; }
  for (auto& o : p.script) { if (o.code == DROP && ++drops[o.x] > 1) return; if (o.code == UNB) return; }
  if (kills > 1 || kin > 1) return;
  if (kin && dsig) { bool same = false; for (auto& t : p.th) { bool d = false, k = false; for (auto& o : t) { if (o.code == DSIG && !o.x) d = true; if (o.code == KIN) k = true; } if (d && !k) return; if (d && k) same = true; } if (!same) return; }   // a signal object must not be used while it is destroyed
  plans.push_back(Plan{p, bound});
}
static void pairs(int base, const std::vector<Seq>& A, const std::vector<Seq>& B, int bound, std::vector<std::pair<int, Op>> sc = {}, bool re = false) { for (auto& a : A) for (auto& b : B) add(base, {a, b}, bound, sc, re); }
static void upairs(int base, const std::vector<Seq>& A, int bound, std::vector<std::pair<int, Op>> sc = {}, bool re = false) { for (size_t i = 0; i < A.size(); ++i) for (size_t j = i; j < A.size(); ++j) add(base, {A[i], A[j]}, bound, sc, re); }
static void utriples(int base, const std::vector<Seq>& A, int bound, std::vector<std::pair<int, Op>> sc = {}, bool re = false) { for (size_t i = 0; i < A.size(); ++i) for (size_t j = i; j < A.size(); ++j) for (size_t k = j; k < A.size(); ++k) add(base, {A[i], A[j], A[k]}, bound, sc, re); }
static std::vector<Seq> singles(const std::vector<Op>& v) { std::vector<Seq> r; for (auto& o : v) r.push_back({o}); return r; }
static std::vector<Seq> seqs2(const std::vector<Op>& v, const std::vector<Op>& w) { std::vector<Seq> r; for (auto& a : v) for (auto& b : w) r.push_back({a, b}); return r; }

static std::vector<Op> all_ops(int base) {
  std::vector<Op> v = {O(EMIT), O(CON, 0, 0), O(CON, 1, 0), O(CON, 0, 1), O(DISC, 0), O(DISC, 1), O(DISG, 1), O(DISF, 1), O(DISA), O(BLK, 0), O(BLT, 0), O(SETC), O(GETC), O(NUM), O(EMP), O(CND, 0), O(BLD, 0), O(HND, 0), O(SCO, 1), O(CONX, 0, 0)};
  if (base == 3 || base == 4) { v.push_back(O(DROP, 0)); v.push_back(O(CONT, 0)); }
  if (base == 4) v.push_back(O(DROP, 2));
  if (base == 9) { v.push_back(O(KIN)); v.push_back(O(DSIG, 0)); v.push_back(O(DSIG, 1)); }
  return v;
}
// emissions which end early: every way the combiner can end, and slots 0 and 1 throwing
static void abandoned(const std::vector<int>& bases, const std::vector<Seq>& E, const std::vector<Op>& ops, int bound, bool all) {
  for (int b : bases) {
    std::vector<Op> X = ops; if (b == 3 || b == 4) X.push_back(O(DROP, 0)); if (b == 4) X.push_back(O(DROP, 2));
    for (g_mode = 1; g_mode <= 4; ++g_mode) if (all || g_mode != 2) pairs(b, E, singles(X), bound);
    g_mode = 0;
    pairs(b, E, singles(X), bound, {{0, O(THR)}}); pairs(b, E, singles(X), bound, {{1, O(THR)}});
    if (all) for (auto& s : {O(DISC, 0), O(EMIT)}) { g_mode = 3; pairs(b, E, singles(X), bound, {{0, s}}); g_mode = 0; pairs(b, E, singles(X), bound, {{0, s}, {1, O(THR)}}); }
  }
}
static void family(const std::string& P, bool thorough) {
  const int U = -1, T3 = P >= "C18" || P == "C13" ? (thorough ? 4 : 3) : thorough ? 3 : 2, A3 = thorough ? U : 3;
  const std::vector<Op> L = {O(EMIT), O(CON, 0, 0), O(DISC, 0), O(DISC, 1), O(DISA), O(DISF, 0), O(NUM), O(CND, 0), O(BLT, 0), O(SETC)};
  if (P == "C13") {
    std::vector<Op> D = {O(DISC, 0), O(DISC, 1), O(DISF, 0), O(DISG, 1), O(DISA), O(SCO, 0), O(SCO, 1)};
    for (int b : {0, 1, 2, 3, 5, 6, 8}) { pairs(b, {{O(EMIT)}, {O(CON, 0, 0)}, {O(NUM)}, {O(CND, 0)}, {O(SETC)}}, singles(D), U); pairs(b, {{O(EMIT), O(EMIT)}}, singles(D), A3); upairs(b, singles(D), A3); }
    for (int b : {0, 2, 8}) for (auto& d : D) { add(b, {{O(EMIT)}, {O(EMIT)}, {d}}, T3); add(b, {{O(EMIT)}, {O(CON, 0, 0)}, {d}}, T3); }
    for (int b : {0, 6}) for (auto& s : {O(CON, 0, 0), O(DISC, 0), O(DISC, 1), O(EMIT), O(DISA)}) for (auto& d : D) { add(b, {{O(EMIT)}, {d}}, A3, {{0, s}}); add(b, {{O(EMIT)}, {d}}, A3, {{1, s}}); }
    abandoned({0, 2, 3, 5, 8}, {{O(EMIT)}}, D, A3, true);
    pairs(13, {{O(EMIT)}, {O(CON, 0, 0)}, {O(NUM)}, {O(CND, 0)}}, singles(D), A3);
    if (thorough) { for (int b : {0, 2, 8}) for (auto& d : D) for (auto& e : D) { add(b, {{O(EMIT)}, {d}, {e}}, 3); add(b, {{O(EMIT)}, {O(EMIT)}, {d, e}}, 2); } }
  } else if (P == "C15") {
    abandoned({0, 3, 5, 8}, {{O(EMIT)}}, L, A3, true);
    for (int b : {0, 1, 2, 3, 4, 5, 6, 8, 9}) upairs(b, singles(all_ops(b)), U);
    // handles against destruction of the signal
    auto H = singles({O(DISC, 0), O(CND, 0), O(BLD, 0), O(BLK, 0), O(BLT, 0), O(HND, 0), O(SCO, 0)});
    for (int b : {0, 2, 3, 5}) { pairs(b, {{O(KILL)}}, H, U); for (auto& x : H) for (auto& y : H) add(b, {{O(KILL)}, x, y}, T3); }
    pairs(3, {{O(KILL)}}, {{O(DROP, 0)}}, U);
    upairs(13, singles(L), A3); { std::vector<Op> W = L; W.push_back(O(DROP, 0)); W.push_back(O(CONT, 0)); W.push_back(O(EMP)); upairs(12, singles(W), T3); }
    utriples(2, singles({O(EMIT), O(CON, 0, 0), O(DISC, 0), O(BLT, 0), O(BLD, 0), O(NUM), O(SETC), O(DISF, 0), O(DISG, 0)}), T3);
    utriples(3, singles({O(EMIT), O(CON, 0, 0), O(DROP, 0), O(DISC, 0), O(CND, 0), O(BLD, 0), O(EMP)}), T3);
    if (thorough) { for (int b : {0, 1, 4, 5, 6, 8}) utriples(b, singles(all_ops(b)), 2); for (int b : {2, 3, 9}) pairs(b, seqs2(all_ops(b), all_ops(b)), singles({O(EMIT), O(CON, 0, 0), O(DISC, 0), O(NUM), O(SETC)}), 3); }
  } else if (P == "C16") {
    abandoned({0, 3, 4}, {{O(EMIT)}}, L, A3, true);
    auto A = [](int b) { std::vector<Op> v = {O(EMIT), O(CON, 0, 0), O(DISC, 0), O(DISA), O(DISF, 0), O(NUM), O(EMP), O(CND, 0), O(BLD, 0), O(BLT, 0), O(SETC), O(CONX, 0, 1)}; if (b == 3 || b == 4) v.push_back(O(DROP, 0)); if (b == 4) v.push_back(O(DROP, 2)); if (b == 9) { v.push_back(O(KIN)); v.push_back(O(DSIG, 0)); v.push_back(O(DSIG, 1)); } return v; };
    for (int b : {0, 2, 3, 4, 5, 8, 9}) upairs(b, singles(A(b)), U, {}, true);
    upairs(13, singles(L), T3, {}, true); { std::vector<Op> W = L; W.push_back(O(DROP, 0)); W.push_back(O(EMP)); upairs(12, singles(W), T3, {}, true); }
    // every operation from inside a slot, against every other operation in another thread
    for (int b : {0, 3, 5}) for (auto& s : A(b)) for (auto& o : A(b)) if (s.code != EMIT || true) add(b, {{O(EMIT)}, {o}}, 3, {{0, s}}, true);
    for (auto& s : A(3)) add(3, {{O(EMIT)}, {O(EMIT)}, {O(DROP, 0)}}, 2, {{0, s}}, true);
    utriples(3, singles({O(EMIT), O(CON, 0, 0), O(DROP, 0), O(CND, 0), O(NUM), O(DISC, 0)}), T3, {}, true);
    // crossed scripts
    for (auto& s : A(0)) for (auto& r : A(0)) add(0, {{O(EMIT)}, {O(EMIT)}}, thorough ? 3 : 2, {{0, s}, {1, r}}, true);
    if (thorough) { for (int b : {0, 2, 4, 5, 9}) utriples(b, singles(A(b)), 2, {}, true); for (int b : {3, 4}) for (auto& s : A(b)) for (auto& o : A(b)) for (auto& q : A(b)) add(b, {{O(EMIT)}, {o, q}}, 2, {{0, s}}, true); }
  } else if (P == "C17") {
    abandoned({0, 1, 2, 8}, {{O(EMIT)}, {O(EMIT), O(EMIT)}}, {O(CON, 0, 0), O(CON, 1, 0), O(CON, 0, 1), O(DISC, 0), O(DISC, 1), O(DISA), O(NUM), O(EMIT)}, A3, thorough);
    std::vector<Op> C = {O(CON, 0, 0), O(CON, 1, 0), O(CON, 0, 1), O(CON, 1, 1), O(CONX, 0, 0), O(DISC, 0), O(DISC, 1), O(DISG, 1), O(DISF, 1), O(DISA), O(NUM), O(CND, 0)};
    std::vector<Op> D = {O(CON, 0, 0), O(CON, 0, 1), O(DISC, 0), O(DISC, 1), O(DISG, 1), O(NUM)};
    for (int b : {0, 1, 2, 6, 8, 11}) { pairs(b, {{O(EMIT)}, {O(EMIT), O(EMIT)}}, singles(C), U); pairs(b, {{O(EMIT)}}, seqs2(C, D), b == 8 || b == 2 ? U : 3); upairs(b, singles(C), U); }
    pairs(13, {{O(EMIT)}}, singles(C), A3); pairs(13, {{O(CON, 0, 0), O(EMIT)}}, singles(D), A3);
    for (int b : {1, 2, 8}) { for (size_t i = 0; i < C.size(); ++i) for (size_t j = i; j < C.size(); ++j) add(b, {{O(EMIT)}, {C[i]}, {C[j]}}, T3); }
    for (int b : {2, 8, 11}) for (auto& o : C) add(b, {{O(EMIT)}, {O(EMIT)}, {o}}, T3);
    for (int b : {0, 6}) for (auto& s : {O(CON, 0, 0), O(DISC, 0), O(DISC, 1), O(EMIT), O(DISA)}) for (auto& o : C) add(b, {{O(EMIT)}, {o}}, 3, {{0, s}});
    for (int b : {7, 11}) pairs(b, seqs2({O(CON, 0, 0), O(CON, 1, 1)}, {O(CON, 0, 0), O(EMIT), O(DISC, 0)}), seqs2({O(CON, 0, 0), O(CON, 1, 1)}, {O(NUM), O(EMIT), O(DISA)}), U);
    if (thorough) { for (int b : {0, 2, 6, 8}) { for (auto& s : seqs2(D, D)) for (auto& o : D) add(b, {{O(EMIT)}, s, {o}}, 2); for (auto& s : seqs2(D, D)) for (auto& q : seqs2(D, D)) add(b, {s, q}, 3); for (auto& o : C) add(b, {{O(EMIT), O(EMIT)}, {O(EMIT)}, {o}}, 3); } }
  } else if (P == "C18") {
    abandoned({3, 4}, {{O(EMIT)}, {O(EMIT), O(EMIT)}, {O(EMIT), O(CND, 0)}}, {O(CND, 0), O(DISC, 0)}, A3, true);
    std::vector<Op> E = {O(EMIT), O(CON, 0, 0), O(CONT, 0), O(CND, 0), O(NUM), O(EMP), O(DISC, 0), O(BLT, 0), O(BLD, 0)};
    for (int b : {3, 4}) { pairs(b, {{O(DROP, 0)}}, singles(E), U); pairs(b, {{O(DROP, 0)}}, seqs2(E, {O(EMIT), O(CND, 0), O(CONT, 0)}), U); for (size_t i = 0; i < E.size(); ++i) for (size_t j = i; j < E.size(); ++j) add(b, {{O(DROP, 0)}, {E[i]}, {E[j]}}, T3); }
    pairs(12, {{O(DROP, 0)}}, singles(E), A3); pairs(12, {{O(DROP, 0)}}, seqs2(E, {O(EMIT), O(CND, 0)}), A3);
    std::vector<Op> F = {O(EMIT), O(CON, 0, 0), O(CONT, 2), O(CND, 2), O(NUM), O(DISC, 2)};
    pairs(4, {{O(DROP, 2)}, {O(DROP, 2), O(DROP, 0)}}, singles(F), U); pairs(4, {{O(DROP, 2)}}, seqs2(F, {O(EMIT), O(CND, 2)}), U);
    for (auto& f : F) { add(4, {{O(DROP, 2)}, {O(EMIT)}, {f}}, T3); add(4, {{O(DROP, 0)}, {O(DROP, 2)}, {O(EMIT)}, }, T3); add(10, {{O(DROP, 2)}, {O(EMIT)}}, U); }
    for (int b : {3, 4}) for (auto& s : {O(DROP, 0), O(CONT, 0), O(EMIT), O(DISC, 1), O(DISC, 0)}) { for (auto& o : E) { add(b, {{O(EMIT)}, {o}}, 3, {{0, s}}); add(b, {{O(EMIT)}, {O(DROP, 1), o}}, 3, {{1, s}}); } }
    if (thorough) { for (int b : {3, 4}) { for (auto& e : E) for (auto& f : E) for (auto& g : E) add(b, {{O(DROP, 0)}, {e, f}, {g}}, 2); for (auto& e : E) for (auto& f : E) add(b, {{O(DROP, 0)}, {e}, {f}}, U); } }
  } else if (P == "C19") {
    std::vector<Op> E = {O(EMIT), O(BLK, 0), O(BLT, 0), O(BLD, 0), O(DISC, 0), O(NUM), O(CON, 0, 0)};
    std::vector<Seq> Bs = {{O(BLK, 0)}, {O(BLK, 0), O(UNB)}, {O(BLT, 0)}, {O(BLK, 0), O(BLK, 0), O(UNB)}, {O(BLK, 0), O(UNB), O(BLK, 0)}, {O(BLK, 0), O(BLK, 1), O(UNB)}};
    for (int b : {0, 2, 3}) { pairs(b, Bs, singles(E), U); pairs(b, Bs, Bs, U); pairs(b, Bs, seqs2({O(EMIT), O(BLD, 0)}, {O(EMIT), O(BLD, 0)}), U); }
    for (int b : {0}) { for (auto& x : Bs) for (auto& y : Bs) for (auto& e : {O(EMIT), O(BLD, 0)}) add(b, {x, y, {e}}, T3); }
    for (auto& s : {O(BLK, 0), O(BLK, 1), O(BLT, 1), O(EMIT)}) for (auto& x : Bs) add(0, {{O(EMIT)}, x}, U, {{0, s}});
    if (thorough) { for (auto& x : Bs) for (auto& y : Bs) for (auto& z : Bs) add(0, {x, y, z}, 3); for (auto& x : Bs) for (auto& y : Bs) add(0, {x, y, {O(EMIT), O(BLD, 0)}}, 3); for (auto& x : Bs) for (auto& y : Bs) add(3, {x, y, {O(EMIT)}}, U); }
  } else if (P == "C20") {
    abandoned({0, 2}, {{O(EMIT)}, {O(EMIT), O(EMIT)}}, {O(SETC), O(GETC)}, A3, true);
    std::vector<Op> E = {O(EMIT), O(CON, 0, 0), O(DISC, 0), O(GETC), O(SETC), O(NUM), O(DISA)};
    for (int b : {0, 2, 8}) { pairs(b, {{O(SETC)}}, singles(E), U); pairs(b, seqs2({O(SETC)}, E), singles({O(EMIT), O(SETC), O(CON, 0, 0)}), U); pairs(b, seqs2({O(CON, 0, 0), O(DISC, 0)}, {O(SETC)}), singles({O(EMIT), O(SETC)}), U); for (auto& e : E) add(b, {{O(EMIT)}, {O(SETC)}, {e}}, T3); for (auto& e : E) add(b, {{O(EMIT)}, {O(CON, 0, 0), O(SETC)}, {e}}, 2); for (auto& e : E) add(b, {{O(EMIT)}, {O(SETC), O(CON, 0, 0)}, {e}}, 2); }
    for (auto& s : {O(SETC), O(GETC), O(CON, 0, 0), O(EMIT), O(DISC, 0), O(DISC, 1)}) for (auto& s2 : {O(SETC), O(CON, 0, 0), O(EMIT), O(DISC, 0)}) { add(0, {{O(EMIT), O(EMIT)}}, U, {{0, s}, {1, s2}}); add(0, {{O(EMIT)}, {O(SETC)}}, U, {{0, s}, {1, s2}}); add(0, {{O(EMIT)}, {O(SETC), O(CON, 0, 0)}}, 3, {{0, s}, {1, s2}}); }
    if (thorough) { for (auto& e : E) for (auto& f : E) for (auto& g : E) { add(2, {{O(EMIT)}, {O(SETC), e}, {f, g}}, 2); add(0, {{e, O(SETC)}, {f, O(EMIT)}, {g}}, 2); } }
  } else if (P == "C21") {
    std::vector<Op> E = {O(EMIT), O(CON, 0, 0), O(CND, 0), O(NUM), O(EMP), O(DISC, 0), O(DISF, 0), O(DISA), O(SETC), O(BLT, 0), O(DSIG, 0), O(DSIG, 1)};
    pairs(9, {{O(KIN)}, {O(EMIT), O(KIN)}}, singles(E), U); pairs(9, {{O(KIN)}}, seqs2(E, {O(EMIT), O(CND, 0)}), U);
    for (size_t i = 0; i < E.size(); ++i) for (size_t j = i; j < E.size(); ++j) add(9, {{O(KIN)}, {E[i]}, {E[j]}}, T3);
    pairs(9, {{O(EMIT)}}, {{O(DSIG)}, {O(DSIG), O(KIN)}, {O(DSIG), O(EMIT)}}, U);
    if (thorough) for (auto& e : E) for (auto& f : E) for (auto& g : E) add(9, {{O(KIN)}, {e, f}, {g}}, 2);
  } else { fprintf(stderr, "unknown profile %s\n", P.c_str()); exit(3); }
}
// which failures a profile judges
static bool judged(const std::string& prof, const char* m) {
  auto has = [&](const char* x) { return strstr(m, x) != 0; };
  auto pre = [&](const char* x) { return strncmp(m, x, strlen(x)) == 0; };
  if (has("NONDETERMINISM")) return true;
  if (pre("data race")) return prof == "C15";
  bool lock = pre("LOCK") || has("deadlock") || has("holding a mutex") || has("mutex it does not hold") || has("still held");
  bool mem = has("use after free") || has("out-of-bounds") || has("double free") || has("free of a pointer") || pre("assertion failed") || pre("crash") || has("null pointer") || has("std::terminate") || has("uncaught") || pre("SLOTMEM") || has("destroyed mutex") || has("mutex is destroyed");
  if (prof == "C15") return mem;
  if (prof == "C16") return lock || has("does not terminate");
  if (lock) return false;
  if (mem) return true;
  if (pre("BLOCK")) return prof == "C19";
  if (pre("TRACK")) return prof == "C18";
  if (pre("COMB")) return prof == "C20";
  if (pre("ORDER")) return prof == "C17" || prof == "C20";
  if (pre("RELEASE") || pre("memory leak")) return prof == "C13";
  if (pre("emission") || pre("num_slots") || pre("empty()") || pre("connected()")) return prof != "C13";
  return true;
}

static const std::string* g_prof;
static bool ujudged(const char* m) { mc::unchecked_begin(); bool r = judged(*g_prof, m); mc::unchecked_end(); return r; }

int main(int argc, char** argv) {
  mc::init(); Cli c = parse_cli(argc, argv);
  if (!c.replay.empty()) {
    FILE* f = fopen(c.replay.c_str(), "r"); if (!f) { perror("replay"); return 3; }
    char line[65536]; Program p; std::vector<int> sch; std::vector<long> locs; int bound = -1;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "program: ", 9)) { std::string s(line + 9); while (!s.empty() && s.back() == '\n') s.pop_back(); p = Program::parse(s); }
      if (!strncmp(line, "schedule:", 9)) { std::stringstream ss(line + 9); int x; while (ss >> x) sch.push_back(x); }
      if (!strncmp(line, "locations: ", 11)) { std::stringstream ss(line + 11); long x; while (ss >> x) locs.push_back(x); }
    }
    fclose(f);
    g_prof = &c.profile; ConcTest t(p, c.profile); mc::Options o; o.preemptions = bound; o.races = c.profile == "C15"; o.racepoints = !o.races; auto r = mc::replay(t, o, sch, locs);
    printf("program: %s\n%s\n%s\n", p.str().c_str(), r.trace.c_str(), r.violation ? ("VIOLATED: " + r.message).c_str() : "no violation");
    return r.violation ? 1 : 0;
  }
  g_prof = &c.profile;
  family(c.profile, c.thorough());
  // drop duplicates
  { std::set<std::string> seen; std::vector<Plan> u; for (auto& p : plans) if (seen.insert(p.p.str()).second) u.push_back(p); plans.swap(u); }
  Agg agg; double end = wall() + c.budget;
  for (size_t i = 0; i < plans.size(); ++i) {
    if ((int)(i % c.shards) != c.shard) continue;
    if (!c.only.empty() && plans[i].p.str().find(c.only) == std::string::npos) continue;
    ++agg.planned;
    double left = end - wall(); if (left <= 0) { ++agg.incomplete; continue; }
    ConcTest t(plans[i].p, c.profile); mc::Options o; o.preemptions = plans[i].bound; o.seconds = left < 120 ? left : 120;
    o.races = c.profile == "C15"; o.racepoints = !o.races;
    double t0 = wall();
    mc::Result r; int bound = plans[i].bound;
    for (;;) {        // all interleavings if they fit, otherwise up to a preemption bound
      o.preemptions = bound; o.max_exec = bound < 0 ? (c.thorough() ? 3000000 : 60000) : bound > 2 ? (c.thorough() ? 3000000 : 150000) : 0;
      r = mc::explore(t, o);
      if (r.exhausted || r.violation || bound == 2 || wall() >= end) break;
      bound = bound < 0 ? 4 : bound - 1;
    }
    agg.add(r); if (r.racy) agg.extra["programs_with_data_races"]++;
    if (c.verbose) printf("%-60s bound %d exec %lu states %lu outcomes %lu maxpts %lu %.2fs%s %s\n", plans[i].p.str().c_str(), bound, r.executions, r.states, r.outcomes, r.max_points, wall() - t0, r.exhausted ? "" : " INCOMPLETE", r.violation ? r.message.c_str() : "");
    if (bound < 0) agg.extra["programs_all_interleavings"]++; else agg.extra["programs_preemption_bound_" + std::to_string(bound)]++;
    if (r.ignored) { agg.extra["executions_ended_by_failures_of_other_properties"] += r.ignored; if (c.verbose) printf("   ignored: %s\n", r.ignored_message.c_str()); }
    if (r.outcomes > 1) agg.extra["programs_with_several_outcomes"]++;
    if (r.violation) {
      if (agg.add_violation(plans[i].p.str(), r)) break;
    } else if (i % 97 == (size_t)c.shard % 97) agg.sample(plans[i].p.str() + ": " + std::to_string(r.executions) + " schedules, " + std::to_string(r.states) + " states, " + std::to_string(r.outcomes) + " outcomes");
  }
  agg.write(c.out);
  return 0;
}
