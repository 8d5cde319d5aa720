// Families of operation sequences per profile. Included by seq.cpp.
static std::vector<Op> cat(std::initializer_list<std::vector<Op>> l) { std::vector<Op> r; for (auto& v : l) r.insert(r.end(), v.begin(), v.end()); return r; }
static std::vector<Op> cons(std::initializer_list<int> kinds, std::initializer_list<int> groups, bool both = true, int sig = 0) {
  std::vector<Op> r; for (int k : kinds) for (int g : groups) { r.push_back(O(CON, sig * 2, g, k)); if (both) r.push_back(O(CON, sig * 2 + 1, g, k)); } return r;
}
static std::vector<Op> rng(int code, int n, int y = 0, int z = 0) { std::vector<Op> r; for (int i = 0; i < n; ++i) r.push_back(O(code, i, y, z)); return r; }
static std::vector<Op> ry(int code, int nx, int ny) { std::vector<Op> r; for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) r.push_back(O(code, i, j)); return r; }
// all sequences of length 1..len over al
static void each_seq(const std::vector<Op>& al, int len, const std::function<void(const Seq&)>& f) {
  Seq s; std::function<void(int)> rec = [&](int left) { if (!s.empty()) f(s); if (!left) return; for (auto& o : al) { s.push_back(o); rec(left - 1); s.pop_back(); } }; rec(len);
}
static Fam F(const Seq& base, const std::vector<Op>& alpha, int depth, const Seq& fin = {}) { Fam f; f.base = base; f.alpha = alpha; f.depth = depth; f.fin = fin; return f; }
static const Op B0 = O(CON, 0), Fr = O(CON, 1), G1 = O(CON, 0, 1), G1f = O(CON, 1, 1), G2 = O(CON, 0, 2), G2f = O(CON, 1, 2);
static std::vector<Seq> lists() { return { {B0, B0, B0}, {G1, G1, G2}, {Fr, G1, B0}, {G1, G1f, G1}, {B0, G1, G2f, Fr} }; }

// Every operation of every kind, on top of states in which all features meet: each profile runs these too.
static void interactions(const std::string& prof, bool th) {
  std::vector<Op> con; for (int k = 0; k < NKIND; ++k) con.push_back(O(CON, 0, 0, k));
  std::vector<Op> all = cat({con, {Fr, G1, G1f, G2, O(CON, 1, 1, EXT), O(CON, 2), O(CON, 2, 1, TSH0)}, rng(DISC, 5), {O(DISG, 1), O(DISF, 0), O(DISF, 1), O(DISX, 1), O(DISW, 0), O(DISS, 1), O(DISA, 0), O(DISA, 1), O(EMIT, 0), O(EMIT, 1), O(NUM), O(NUM, 0, 1)}, rng(DROP, 4),
    {O(SETC, 1), O(SNEW, 0, 0), O(SNEW, 1, 1), O(SASG, 0, 1), O(SDEL, 0), O(SREL, 0), O(SMC, 1, 0), O(SMA, 0, 1), O(SMA, 1, 0), O(SSWAP), O(SMP, 0), O(SMSELF, 0), O(SMCON, 0, 2),
     O(BNEW, 0, 0), O(BNEW, 1, 1), O(BNEWU, 2, 1), O(BCOPY, 1, 0), O(BASG, 0, 1), O(BBLK, 0), O(BUNB, 0), O(BDEL, 0), O(HASG, 0, 0), O(HASG, 1, 1), O(HDISC, 0), O(HCPY, 0, 1), O(HMOV, 1, 0), O(HSWAP, 0, 1),
     O(SIGSWAP, 0, 1), O(SIGMC, 2, 0), O(SIGMA, 0, 1), O(SIGDEL, 1), O(SIGDEL, 0), O(SIGNEW, 0, 1), O(CTHROW, 1), O(CSETC, 1)}});
  std::vector<Seq> bases = {
    {B0, O(CON, 0, 1, EXT), O(CON, 0, 1, TBOTH), O(CON, 0, 0, SIGNAL), O(CON, 2), O(BNEW, 0, 1), O(SNEW, 0, 0), O(HASG, 0, 2)},
    {O(CON, 0, 1, TSH0), Fr, G1, O(CON, 0, 2, TARGS), O(BNEW, 0, 0), O(SNEW, 1, 0), O(HASG, 1, 1), O(BNEW, 1, 2)},
    {O(CON, 1, 1, REF), O(CON, 0, 1, TCONV), O(CON, 0, 0, TSIG), B0, O(SNEW, 0, 1), O(BNEW, 0, 1), O(SNEW, 1, 3), O(DISC, 2)} };
  bool wide = prof != "C26" && prof != "C24";      // those two run on many configurations
  for (size_t b = 0; b < bases.size(); ++b) enumerate(F(bases[b], all, th && wide ? 3 : 2));
  if (wide) { std::vector<Op> some; for (size_t i = 0; i < all.size(); ++i) if (all[i].code != CON || all[i].z <= TSH0) some.push_back(all[i]); if (!th) enumerate(F(bases[1], some, 3)); }
  std::vector<Op> act = cat({all, {O(THROW, 7), O(THROW, 8, 0, 1), O(THROW, 0, 0, 2)}});
  for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(act, wide || th ? 2 : 1, [&](const Seq& s) { Fam f = F(b, {O(EMIT)}, th ? 2 : 1); f.only_full = true; f.script[i] = s; enumerate(f); });
  for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(act, 1, [&](const Seq& s) { Fam f = F(b, {O(EMIT), O(BUNB, 0), O(BDEL, 0), O(SDEL, 0), O(DISC, 0), O(DISG, 1), O(DROP, 0), G1}, 2); f.script[i] = s; enumerate(f); });
}
static void families(const std::string& prof, bool th) {
  int D = th ? 1 : 0;
  if (prof.size() == 3) interactions(prof, th);
  if (prof == "C01") {
    enumerate(F({}, cat({cons({PLAIN}, {0, 1, 2}), rng(DISC, 3), {O(EMIT), O(DISG, 1), O(NUM)}}), 5 + D));
    enumerate(F({G1, G2, G1f, G2f, B0, Fr}, cat({cons({PLAIN}, {0, 1, 2, 3}), rng(DISC, 6), {O(EMIT), O(DISG, 1), O(DISG, 2)}}), 4 + D));
    enumerate(F({O(CON, 0, 1, TSH0), O(CON, 1, 1, PLAIN), O(CON, 0, 2, TSH0)}, cat({cons({PLAIN, TSH0}, {1, 2}), rng(DISC, 3), {O(EMIT), O(DROP), O(NUM)}}), 4 + D));
    for (auto& b : lists()) for (int i = 0; i < 3; ++i)      // the list is edited by a slot while the emission walks it
      each_seq(cat({cons({PLAIN}, {0, 1, 2}), rng(DISC, 3), {O(EMIT), O(DISG, 1)}}), 2 + D, [&](const Seq& s) { Fam f = F(b, {O(EMIT), G1f, B0, O(DISC, 1)}, 2); f.script[i] = s; enumerate(f); });
  }
  if (prof == "C02") {
    enumerate(F({}, cat({cons({PLAIN, TSH0}, {0, 1}, false), {Fr, O(BNEW, 0, 0), O(BUNB), O(DROP), O(EMIT), O(NUM), O(NUM, 0, 1), O(DISA)}, rng(DISC, 3)}), 5 + D));
    enumerate(F({B0, G1, Fr, O(CON, 0, 1, TSH0), O(CON, 0, 0, TFOR2)}, cat({rng(DISC, 5), ry(BNEW, 2, 3), {O(DROP, 0), O(DROP, 2), O(BDEL, 0), O(DISG, 1), O(DISA), O(EMIT), O(NUM), B0, O(CON, 0, 2, EXT)}}), 4 + D));
  }
  if (prof == "C03") {
    std::vector<Op> act = cat({rng(DISC, 5), ry(BNEW, 1, 4), {O(BUNB, 0), B0, Fr, G1, G1f, O(EMIT), O(DISA), O(DISG, 1), O(DROP, 0), O(NUM), O(SETC, 1), O(BNEW, 1, 1), O(CON, 0, 1, TSH0)}});
    std::vector<Seq> bases = lists();
    bases.push_back({B0, O(CON, 0, 0, TSH0), B0, O(CON, 0, 0, EXT)}); bases.push_back({O(CON, 0, 1, TSH0), G1, O(CON, 0, 1, TSH0), O(DISC, 1)});
    bases.push_back({B0, B0, B0, O(BNEW, 0, 2)}); bases.push_back({B0, G1, G1, O(DISC, 2), O(EMIT)});
    for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(act, 2 + D, [&](const Seq& s) { Fam f = F(b, {O(EMIT)}, 2); f.script[i] = s; f.only_full = true; enumerate(f); });
    // two (thorough: more) slots act, possibly in nested emissions
    for (auto& b : bases) for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 5; ++j) for (auto& x : act) for (auto& y : act) {
      Fam f = F(b, {O(EMIT)}, 2); f.only_full = true; f.script[i] = {x}; f.script[j] = {y}; enumerate(f);
      if (x.code == CON || y.code == CON || th) { f.script[i] = {x, O(EMIT)}; enumerate(f); }
      if (th) { f.script[j] = {y, O(EMIT)}; enumerate(f); f.script[i] = {O(EMIT), x}; enumerate(f); }
    }
    // random access of what happens after such an emission
    for (auto& b : lists()) for (int i = 0; i < 3; ++i) for (auto& x : act) { Fam f = F(b, cat({{O(EMIT), B0, G1, Fr, O(NUM), O(DISG, 1)}, rng(DISC, 4)}), 3); f.script[i] = {x}; enumerate(f); }
  }
  if (prof == "C04") {
    std::vector<Op> dis = cat({rng(DISG, 4), {O(BNEW, 0, 0), O(BNEW, 0, 2)}, rng(DISF, 2), rng(DISX, 2), rng(DISW, 2), {O(DISS, 1), O(DISA), O(DISS, 0)}});
    enumerate(F({}, cat({cons({PLAIN, EXT, REF, SIGNAL}, {0, 1}, false), dis, {O(EMIT), O(DISC, 0)}}), 4 + D));
    enumerate(F({B0, G1, O(CON, 0, 2, EXT), O(CON, 0, 1, EXT), O(CON, 0, 0, REF), O(CON, 0, 1, SIGNAL), O(CON, 0, 2, REF), O(CON, 0, 0, SIGNAL)}, cat({dis, rng(DISC, 8), {O(EMIT), O(NUM)}}), 3 + D));
    enumerate(F({G1, G1f, G2, G2, O(CON, 1, 2, EXT), O(CON, 0, 3, TSH0)}, cat({dis, cons({PLAIN}, {0, 1, 2, 3}), {O(EMIT), O(DROP), O(NUM)}}), 3 + D));
    for (auto& b : lists()) for (int i = 0; i < 3; ++i) for (auto& x : dis) for (auto& y : dis) { Fam f = F(b, {O(EMIT), G1}, 2); f.script[i] = {x, y}; enumerate(f); }
  }
  if (prof == "C05") {
    std::vector<Op> h = cat({ry(HASG, 2, 2), {O(HCPY, 0, 1), O(HCPY, 1, 2), O(HMOV, 0, 1), O(HMOV, 1, 0), O(HSWAP, 0, 1, 0), O(HSWAP, 0, 1, 1), O(HNUL, 0), O(HDISC, 0), O(HDISC, 1), O(HMSELF, 0)}});
    enumerate(F({B0, G1}, cat({h, {O(DISC, 0), O(SIGDEL, 0), O(EMIT)}}), 4 + D));
    enumerate(F({}, cat({cons({PLAIN, EXT, TSH0, TRK3, SIGNAL}, {1}, false), rng(DISC, 3), {O(DISA), O(DISG, 1), O(DISF, 0), O(DROP, 0), O(DROP, 3), O(SIGDEL, 0), O(SIGDEL, 1), O(EMIT), O(NUM), O(BNEW, 0, 0), O(BUNB, 0)}}), 4 + D));
    for (auto& b : lists()) for (int i = 0; i < 2; ++i) each_seq(cat({rng(DISC, 3), {O(BNEW, 0, 0), O(BDEL, 0), O(HASG, 0, 0), O(HDISC, 0), O(EMIT), B0, O(DISA), O(SETC, 1)}}), 2, [&](const Seq& s) { Fam f = F(b, {O(EMIT), O(HDISC, 0), O(HASG, 1, 1), B0}, 2); f.script[i] = s; enumerate(f); });
  }
  if (prof == "C06") {
    std::vector<Op> s = cat({ry(SNEW, 2, 2), ry(SASG, 1, 2), rng(SDEL, 2), rng(SREL, 2), {O(SMC, 0, 1), O(SMC, 1, 0), O(SMA, 0, 1), O(SMA, 1, 0), O(SSWAP, 0), O(SSWAP, 1), O(SMSELF, 0), O(SMP, 0), O(SDISC, 0), O(SMCON, 0, 0), O(SMCON, 1, 1)}});
    enumerate(F({B0, G1}, s, 4 + D));
    enumerate(F({B0, B0, G1, O(SNEW, 0, 0), O(SNEW, 1, 1)}, cat({s, {O(DISC, 0), O(EMIT), O(SIGDEL, 0), O(HDISC, 0), O(SASG, 0, 2), O(SASG, 1, 2), O(HNUL, 0)}}), 4));
    for (int i = 0; i < 2; ++i) each_seq(s, 2, [&](const Seq& q) { Fam f = F({B0, B0, G1, O(SNEW, 0, 0), O(SNEW, 1, 2)}, {O(EMIT), O(SDEL, 0)}, 2); f.script[i] = q; enumerate(f); });
  }
  if (prof == "C07") {
    std::vector<Op> b = cat({ry(BNEW, 2, 2), {O(BNEWU, 0, 0), O(BNEWU, 1, 1), O(BNEWU, 2, -1, 0), O(BNEWU, 2, -1, 1), O(BCOPY, 1, 0), O(BCOPY, 2, 0), O(BCOPY, 0, 1), O(BASG, 0, 1), O(BASG, 1, 0), O(BASG, 2, 0), O(BASG, 0, 2), O(BASG, 0, 0), O(BBLK, 0), O(BBLK, 1), O(BUNB, 0), O(BUNB, 1), O(BUNB, 2), O(BDEL, 0), O(BDEL, 1), O(BDEL, 2)}});
    enumerate(F({B0, G1}, b, 4 + D));
    enumerate(F({B0, O(CON, 0, 1, TSH0), O(BNEW, 0, 0), O(BNEW, 1, 1)}, cat({b, {O(EMIT), O(DISC, 0), O(DROP, 0), O(SIGDEL, 0), B0, O(NUM)}}), 3 + D));
    for (int i = 0; i < 3; ++i) each_seq(b, 2 + D, [&](const Seq& q) { Fam f = F({B0, G1, B0, O(BNEW, 0, 2)}, {O(EMIT)}, 2); f.only_full = true; f.script[i] = q; enumerate(f); });
  }
  if (prof == "C08") {
    std::vector<Op> drops = {O(DROP, 0), O(DROP, 1), O(DROP, 2), O(DROP, 3), O(SIGDEL, 1)};
    enumerate(F({}, cat({cons({TSH0, TFOR2, TRK3, TBOTH, TWK0, TSLOT, TSIG, TEXT0, TFSH2, TMANY, TGONE, SIGNAL}, {0}, false), drops, {O(EMIT), O(NUM), O(NUM, 0, 1)}}), 4 + D));
    enumerate(F({O(CON, 0, 1, TSH0), O(CON, 0, 0, TBOTH), O(CON, 0, 1, TSLOT), O(CON, 1, 0, TMANY), O(CON, 0, 2, TSIG)}, cat({drops, {O(EMIT), O(NUM), O(NUM, 0, 1), O(DISC, 1), B0, O(CON, 0, 1, TSH0), O(CON, 0, 1, TFSH2), O(BNEW, 0, 0), O(BUNB, 0), O(DISG, 1)}}), 4 + D));
    std::vector<int> ks = {TSH0, TFOR2, TRK3, TBOTH, TWK0, TSLOT, TSIG, TEXT0, TFSH2, TMANY, SIGNAL, PLAIN};
    for (int a : ks) for (int b : ks) for (int i = 0; i < 2; ++i) each_seq(cat({drops, {O(EMIT), O(DISC, 1), O(DISC, 0)}}), 2, [&](const Seq& s) {
      for (auto& d : s) if (d.code == DROP && d.x == 3 && tracks(i ? b : a) & 8) return;      // a slot must not destroy the raw object it is bound to
      Fam f = F({O(CON, 0, 0, a), O(CON, 0, 0, b), O(CON, 2, 0, PLAIN)}, {O(EMIT)}, 2); f.only_full = true; f.script[i] = s; enumerate(f); });
  }
  if (prof == "C11") {
    enumerate(F({}, cat({cons({PLAIN, EXT, REF, TEXT0, TRK3, SIGNAL}, {0, 1}, false), rng(DISC, 2), {O(EMIT), O(BNEW, 0, 0), O(BUNB, 0), O(CON, 2)}}), 4 + D));
    std::vector<Op> act = cat({rng(DISC, 4), {O(EMIT), B0, O(CON, 0, 0, EXT), O(CON, 1, 1, EXT), O(BNEW, 0, 0), O(BNEW, 0, 1), O(DISA), O(NUM)}});
    for (auto& b : std::vector<Seq>{{O(CON, 0, 0, EXT), O(CON, 0, 0, EXT), B0}, {O(CON, 0, 1, EXT), O(CON, 1, 1, EXT), O(CON, 0, 1, EXT)}, {B0, O(CON, 0, 2, TEXT0), O(CON, 1, 0, EXT)}})
      for (int i = 0; i < 3; ++i) for (int j = i; j < 4; ++j) each_seq(act, 2 + D, [&](const Seq& s) { Fam f = F(b, {O(EMIT)}, 2); f.only_full = true; f.script[i] = s; if (j > i) f.script[j] = {O(DISC, j), O(EMIT)}; enumerate(f); });
  }
  if (prof == "C12") {
    std::vector<Op> act = cat({rng(DISC, 3), {O(THROW, 7), O(THROW, 7, 0, 1), O(THROW, 7, 0, 2), O(EMIT), B0, G1f, O(BNEW, 0, 1), O(SETC, 1), O(DROP, 0), O(DISA)}});
    std::vector<Seq> bases = lists(); bases.push_back({B0, O(CON, 0, 0, TSH0), O(CON, 0, 0, SIGNAL), O(CON, 2)});
    for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(act, 2, [&](const Seq& s) {
      Seq t = s; if (t.back().code != THROW) t.push_back(O(THROW, 7)); Fam f = F(b, {O(EMIT), G1, O(NUM), O(DISC, 1)}, 2 + D); f.script[i] = t; enumerate(f); });
    for (auto& b : bases) for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if (i != j) for (auto& x : act) { Fam f = F(b, {O(EMIT), O(DISG, 1), Fr}, 2 + D); f.script[i] = {x, O(EMIT)}; f.script[j] = {O(THROW, 9)}; enumerate(f); f.script[j] = {O(DISC, j), O(THROW, 9)}; enumerate(f); }
    for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(cat({rng(DISC, 3), {O(EMIT), B0, O(CTHROW, 1)}}), 2, [&](const Seq& s) { Fam f = F(b, {O(EMIT), O(CTHROW, 1), O(CTHROW, 2), O(SETC, 2), O(NUM)}, 3); f.script[i] = s; enumerate(f); });
  }
  if (prof == "C24") {       // every way of leaving an operation: the mutex must be free afterwards
    std::vector<Op> act = cat({rng(DISC, 3), {O(THROW, 7), O(EMIT), B0, G1f, O(BNEW, 0, 1), O(SETC, 1), O(DROP, 0), O(DISA), O(CTHROW, 1), O(DISG, 1), O(SIGSWAP, 0, 1)}});
    std::vector<Seq> bases = lists(); bases.push_back({B0, O(CON, 0, 0, TSH0), O(CON, 0, 0, SIGNAL), O(CON, 2)}); bases.push_back({O(CON, 0, 0, EXT), O(CON, 0, 1, TEXT0), O(SNEW, 0, 0), B0});
    std::vector<Op> top = cat({{O(EMIT), G1, O(NUM), O(DISC, 1), O(BNEW, 0, 0), O(SASG, 0, 1), O(SDEL, 0), O(SIGSWAP, 0, 1), O(SIGMA, 0, 1), O(SETC, 2), O(DISF, 0), O(DROP, 0), O(HASG, 0, 0), O(HDISC, 0)}});
    for (auto& b : bases) enumerate(F(b, top, 3 + D));
    for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(act, 2, [&](const Seq& s) { Fam f = F(b, top, 1 + D); f.script[i] = s; enumerate(f); });
    for (auto& b : bases) for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if (i != j) for (auto& x : act) { Fam f = F(b, {O(EMIT), O(DISG, 1), Fr}, 2); f.script[i] = {x, O(EMIT)}; f.script[j] = {O(THROW, 9)}; enumerate(f); }
  }
  if (prof == "C12F" || prof == "C24F") {
    // connect fails at its n-th faultable step, for every n, after every history
    std::vector<Op> hist = cat({cons({PLAIN}, {0, 1, 2}, false), {Fr, G1f, O(EMIT), O(NUM), O(DROP, 0), O(CON, 0, 1, TSH0), O(CON, 0, 3, TSH0)}, rng(DISC, 3)});
    std::vector<Op> fc = {O(FCON, 0, 0, PLAIN), O(FCON, 1, 0, PLAIN), O(FCON, 0, 1, PLAIN), O(FCON, 1, 1, PLAIN), O(FCON, 0, 2, EXT), O(FCON, 1, 2, TSH0), O(FCON, 0, 3, PLAIN), O(FCON, 1, 3, TEXT0), O(FCON, 0, 1, TBOTH)};
    int depth = th ? 4 : 3;
    std::function<void(const Model&, Program&, int)> rec = [&](const Model& m, Program& p, int left) {
      if (stop) return;
      for (auto& o : fc) {
        if (counter++ % cli.shards != (uint64_t)cli.shard) continue;
        for (int k = 0; k < 3; ++k) for (int n = 1; n < 200 && !stop; ++n) {
          Program q = p; Op f = o; f.x |= n << 4; q.ops.push_back(f);
          if (k == 1) { q.ops.push_back(O(EMIT)); q.ops.push_back(O(CON, 0, o.y, PLAIN)); q.ops.push_back(O(CON, 1, o.y, PLAIN)); }
          if (k == 2) { q.ops.push_back(O(DISG, 1)); q.ops.push_back(O(EMIT)); q.ops.push_back(O(CON, 0, 3, PLAIN)); q.ops.push_back(G1f); }
          g_faulted = false; run_program(q); if (!g_faulted) break; ++agg.extra["injected_failures"];
        }
      }
      states.insert(m.key());
      if (!left) return;
      for (auto& o : hist) if (m.applicable(o)) { Model q = m; q.prog = &p; q.apply(o); if (q.refused) continue; p.ops.push_back(o); rec(q, p, left - 1); p.ops.pop_back(); }
    };
    Program p; Model m; m.prog = &p; rec(m, p, depth);
    // the same failure inside an emission
    for (auto& b : lists()) for (int i = 0; i < 3; ++i) for (auto& o : fc) for (int pre = 0; pre < 3; ++pre) {
      if (counter++ % cli.shards != (uint64_t)cli.shard) continue;
      for (int n = 1; n < 200 && !stop; ++n) { Program q; q.ops = b; q.ops.push_back(O(EMIT)); q.ops.push_back(O(EMIT)); Op f = o; f.x |= n << 4; if (pre) q.script[i].push_back(O(DISC, pre)); q.script[i].push_back(f); g_faulted = false; run_program(q); if (!g_faulted) break; ++agg.extra["injected_failures"]; }
    }
  }
  if (prof == "C12E" || prof == "C24E") { const bool c24 = prof == "C24E";
    // any operation fails at its n-th faultable step, for every n until it gets through
    auto inject = [&](const Program& base, const Op& o, const std::vector<Seq>& tails) {
      for (auto& t : tails) {
        if (counter++ % cli.shards != (uint64_t)cli.shard) continue;
        { Model m; m.prog = &base; Seq q = base.ops; q.push_back(o); q.insert(q.end(), t.begin(), t.end()); bool ok = true; for (auto& x : q) { if (!m.applicable(x)) { ok = false; break; } m.apply(x); if (m.refused) { ok = false; break; } }
          for (int s = 0; ok && s < NSV; ++s) if (m.has(s)) { m.apply(O(EMIT, s)); ok = !m.refused; } if (!ok) continue; }
        for (int n = 1; n < 300 && !stop; ++n) {
          Program q = base; q.ops.push_back(O(ARM, n)); q.ops.push_back(o); q.ops.insert(q.ops.end(), t.begin(), t.end());
          run_program(q); if (!g_fired) break; ++agg.extra["injected_failures"]; } } };
    std::vector<Op> fo = {O(EMIT), O(DISG, 1), O(DISG, 3), O(SETC, 4), O(BNEW, 0, 0), O(BNEW, 1, 1), O(SNEW, 0, 0), O(SIGNEW, 2, 1), O(NUM), O(NUM, 0, 1), O(DISA), O(DISC, 0), O(DISF, 0), O(HASG, 0, 0), O(SIGSWAP, 0, 1), O(CON, 2, 1), O(CON, 0, 0, T12), O(CON, 0, 1, TSLOT), O(CON, 0, 1, TMANY)};
    std::vector<Op> hist = cat({cons({PLAIN, T12}, {0, 1}, false), {Fr, G1f, G2, O(EMIT), O(DROP, 0), O(DISG, 1), O(SETC, 1), O(BNEW, 2, 0)}, rng(DISC, 3)});
    std::vector<Seq> tails = {{}, {O(EMIT), G1, G1f, O(DISG, 1)}};
    std::function<void(const Model&, Program&, int)> rec = [&](const Model& m, Program& p, int left) {
      if (stop) return;
      for (auto& o : fo) if (m.applicable(o)) inject(p, o, tails);
      states.insert(m.key());
      if (!left) return;
      for (auto& o : hist) if (m.applicable(o)) { Model q = m; q.prog = &p; q.apply(o); if (q.refused) continue; p.ops.push_back(o); rec(q, p, left - 1); p.ops.pop_back(); }
    };
    { Program p; Model m; m.prog = &p; rec(m, p, th && !c24 ? 4 : c24 ? 2 : 3); }
    // emissions that fail: at any point of the emission itself, of nested ones and of the operations of their slots
    std::vector<Op> act = cat({rng(DISC, 4), {O(DISA), O(DISG, 1), O(EMIT), B0, G1, G1f, O(CON, 0, 1, T12), O(CON, 0, 0, EXT), O(NUM), O(DROP, 0), O(SETC, 1), O(BNEW, 0, 1), O(CON, 2)}});
    std::vector<Seq> bases = lists(); bases.push_back({B0, O(CON, 0, 0, T12), O(CON, 0, 1, T12), B0}); bases.push_back({G1, O(CON, 0, 0, SIGNAL), O(CON, 2), O(CON, 2, 0, T12)}); bases.push_back({B0, G1, G1, G1, B0, O(DISC, 1), O(DISC, 2), O(DISC, 3)});
    auto runs = [&](Program& p, bool two) {
      Model m; m.prog = &p; for (auto& o : p.ops) m.apply(o);
      for (auto& t : p.script) for (auto& o : t) if (o.code == DISC && o.x >= (int)m.con.size()) return;      // not there if the failure comes first
      Model q = m; q.apply(O(EMIT)); if (q.refused) return;
      inject(p, O(EMIT), {{}, {O(EMIT), G1}}); if (two) { p.ops.push_back(O(EMIT)); inject(p, O(EMIT), {{}, {O(DISG, 1), G1f}}); p.ops.pop_back(); }
    };
    for (auto& b : bases) { Program p; p.ops = b; runs(p, true); for (int i = 0; i < 4; ++i) each_seq(act, c24 && !th ? 1 : 2, [&](const Seq& s) { Program p; p.ops = b; p.script[i] = s; runs(p, true); }); }
    for (auto& b : bases) for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 5; ++j) for (auto& x : act) for (auto& y : act) { Program p; p.ops = b; p.script[i] = {x, O(EMIT)}; p.script[j] = {y}; runs(p, false); if (th) { p.script[i] = {x}; p.script[j] = {y, O(EMIT)}; runs(p, false); } }
    // many slots expire during the emission and one connects
    for (int i = 8; i < 12; ++i) for (auto& x : {B0, G1, O(EMIT), O(CON, 0, 0, T12)}) { Program p; p.ops.push_back(B0); for (int k = 0; k < i; ++k) p.ops.push_back(O(CON, 0, k & 1, TSH0)); p.script[0] = {O(DROP, 0), x}; runs(p, false); }
  }
  if (prof == "C13") {
    enumerate(F({}, cat({cons({PLAIN, EXT, TSH0, TFOR2}, {0, 1}, false), rng(DISC, 3), {O(DISA), O(DISG, 1), O(DISF, 0), O(EMIT), O(NUM), O(SIGDEL, 0), O(DROP, 0)}}), 4 + D));
    std::vector<Op> act = cat({rng(DISC, 4), {O(DISA), O(DISG, 1), O(EMIT), B0, G1, O(NUM), O(DROP, 0), O(SETC, 1), O(DISF, 0), O(BNEW, 0, 0), O(THROW, 3)}});
    std::vector<Seq> bases = lists(); bases.push_back({O(CON, 0, 0, TSH0), B0, O(CON, 0, 1, TBOTH)}); bases.push_back({O(CON, 0, 0, SIGNAL), O(CON, 2), O(CON, 2), B0});
    for (auto& b : bases) for (int i = 0; i < 4; ++i) each_seq(act, 2, [&](const Seq& s) { Fam f = F(b, {O(EMIT), O(DISC, 1), B0}, 2 + D); f.script[i] = s; enumerate(f); });
    for (auto& b : bases) for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 4; ++j) for (auto& x : act) for (auto& y : act) { Fam f = F(b, {O(EMIT)}, 2); f.only_full = true; f.script[i] = {x, O(EMIT)}; f.script[j] = {y}; enumerate(f); f.script[i] = {O(EMIT), x}; enumerate(f); }
  }
  if (prof == "C14") {
    std::vector<Op> sg; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) { if (a < b) { sg.push_back(O(SIGSWAP, a, b, (a + b) & 1)); } sg.push_back(O(SIGMC, a, b)); sg.push_back(O(SIGMA, a, b)); }
    sg.push_back(O(SIGDEL, 0)); sg.push_back(O(SIGDEL, 1)); sg.push_back(O(SIGNEW, 2, 1)); sg.push_back(O(SIGNEW, 0, 2)); sg.push_back(O(SIGMSELF, 0));
    std::vector<Op> use = {B0, O(CON, 2, 1), O(DISA, 0), O(DISA, 1), O(DISG, 1, 0), O(DISG, 1, 1), O(NUM, 0), O(NUM, 1), O(EMIT, 0), O(DISC, 0), O(SETC, 3, 0), O(DISF, 0, 0), O(DISF, 1, 1)};
    enumerate(F({}, cat({sg, use}), 3 + D));
    enumerate(F({B0, O(CON, 2, 1), O(CON, 1, 1, EXT), O(SETC, 5, 0)}, cat({sg, use}), 3 + D));
    enumerate(F({O(CON, 0, 0, SIGNAL), O(CON, 2, 0, PLAIN), O(CON, 0, 0, TSIG), O(BNEW, 0, 1)}, cat({sg, {O(DISC, 0), O(CON, 4, 0, TSIG), O(DISS, 1, 0), O(DISS, 2, 0), O(EMIT, 0)}}), 3 + D));
    enumerate(F({G1, O(CON, 2, 2), O(SNEW, 0, 0), O(HASG, 0, 1)}, cat({sg, {O(SDEL, 0), O(HDISC, 0)}}), 3 + D));
  }
  if (prof == "C20") {
    std::vector<Op> sc = {O(SETC, 1), O(SETC, 2)};
    enumerate(F({B0, G1}, cat({sc, cons({PLAIN}, {0, 1}), {O(EMIT), O(DISC, 0), O(NUM), O(DISG, 1)}}), 5 + D));
    std::vector<Op> act = cat({sc, {B0, Fr, G1f, O(EMIT), O(DISC, 0), O(DISC, 1), O(DISC, 2), O(NUM), O(DISA)}});
    for (auto& b : lists()) for (int i = 0; i < 4; ++i) each_seq(act, 3 + D, [&](const Seq& s) { Fam f = F(b, {O(EMIT)}, 2); f.only_full = true; f.script[i] = s; enumerate(f); });
    for (auto& b : lists()) for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 5; ++j) each_seq(act, 2, [&](const Seq& s) { for (auto& y : act) { Fam f = F(b, {O(EMIT)}, 2); f.only_full = true; f.script[i] = s; f.script[j] = {y}; enumerate(f); } });
    for (auto& b : lists()) for (auto& x : act) { Fam f = F(b, cat({sc, {O(EMIT), B0, G1, O(DISC, 1)}}), 3 + D); f.script[0] = {O(SETC, 4), x}; enumerate(f); f.script[0] = {x, O(SETC, 4)}; enumerate(f); }
    // combiner replaced by the combiner itself
    for (auto& b : lists()) for (int k = 0; k < 3; ++k) { Fam f = F(b, cat({sc, {O(CSETC, k), O(EMIT), B0, G1f, O(DISC, 1)}}), 4); enumerate(f); for (auto& x : act) { f.script[1] = {x}; f.depth = 3; enumerate(f); } }
  }
  if (prof == "C21") {
    std::vector<Op> u = {O(CON, 0, 0, SIGNAL), O(CON, 0, 1, SIGNAL), O(CON, 0, 0, TSIG), B0, O(CON, 2), O(CON, 2, 1), O(CON, 0, 0, SIGREF), O(CON, 0, 1, SIGBIND), O(EMIT, 0), O(EMIT, 1), O(SIGDEL, 1), O(SIGDEL, 0), O(DISC, 0), O(DISC, 1), O(DISS, 1, 0), O(NUM, 0), O(DISA, 1), O(BNEW, 0, 0)};
    enumerate(F({}, u, 4 + D));
    std::vector<Op> act = {O(SIGDEL, 1), O(DISC, 0), O(DISC, 1), O(DISC, 2), O(DISS, 1, 0), O(EMIT, 0), O(EMIT, 1), O(CON, 2), O(CON, 0, 0, SIGNAL), O(DISA, 1), O(DISA, 0), O(SETC, 1, 1), O(THROW, 4), O(CON, 0, 0, SIGBIND)};
    for (auto& b : std::vector<Seq>{{B0, O(CON, 0, 0, SIGNAL), B0, O(CON, 2), O(CON, 2)}, {O(CON, 0, 0, SIGNAL), O(CON, 2), O(CON, 2), B0}, {O(CON, 2), O(CON, 0, 0, SIGREF), O(CON, 0, 1, SIGBIND), O(CON, 2)}, {O(CON, 0, 0, TSIG), O(CON, 0, 0, SIGNAL), O(CON, 2), O(CON, 2)}, {O(CON, 2), O(CON, 0, 0, SIGBIND), O(CON, 2), O(CON, 0, 0, SIGBIND)}})
      for (int i = 0; i < 5; ++i) { each_seq(act, 2 + D, [&](const Seq& s) { Fam f = F(b, {O(EMIT, 0)}, 2); f.only_full = true; f.script[i] = s; enumerate(f); }); for (int j = i + 1; j < 5; ++j) for (auto& x : act) for (auto& y : act) { Fam f = F(b, {O(EMIT, 0)}, 2); f.only_full = true; f.script[i] = {x}; f.script[j] = {y}; enumerate(f); } }
  }
  if (prof == "C26" || prof == "C01v") {
    int d = th ? 4 : 3;
    enumerate(F({}, cat({cons({PLAIN}, {0, 1, 2, 3}), rng(DISC, 3), {O(EMIT), O(DISG, 1), O(DISG, 2), O(NUM)}}), d + 1));
    if (prof == "C01v") { enumerate(F({G1, G2, G1f, G2f, B0, Fr}, cat({cons({PLAIN}, {1, 2, 3}), rng(DISC, 6), {O(EMIT), O(DISG, 1), O(DISG, 2)}}), d)); return; }
    enumerate(F({G1, B0, G2f}, cat({cons({PLAIN, EXT, TSH0, TRK3, SIGNAL}, {0, 1}, false), rng(DISC, 2), {O(EMIT), O(DISG, 1), O(DISF, 0), O(DISX, 1), O(DISA), O(DROP), O(BNEW, 0, 0), O(BUNB, 0), O(SETC, 2), O(SIGSWAP, 0, 1), O(SIGMA, 0, 1), O(SIGDEL, 1), O(SNEW, 0, 1), O(SDEL, 0)}}), d));
    std::vector<Op> act = cat({rng(DISC, 4), {B0, G1f, O(EMIT), O(DISG, 1), O(DISA), O(BNEW, 0, 1), O(SETC, 1), O(NUM), O(THROW, 2), O(DROP, 0)}});
    for (auto& b : lists()) for (int i = 0; i < 3; ++i) each_seq(act, 2, [&](const Seq& s) { Fam f = F(b, {O(EMIT)}, 2); f.only_full = true; f.script[i] = s; enumerate(f); });
  }
}
