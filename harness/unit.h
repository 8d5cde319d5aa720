// Enumerated closed programs: a program is a case name and a vector of integers; body() runs it on the real library inside the
// engine (memory checker, leak check, optional threads) and calls mc::fail where the library departs from the reference.
#ifndef UNIT_H
#define UNIT_H
#include "common.h"
#include <functional>
typedef std::vector<int> Vec;
struct Case { const char* name; void (*body)(const Vec&); int threads; void (*thread)(const Vec&, int); void (*finish)(const Vec&); bool leakcheck; };
static std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char* n, void (*b)(const Vec&), int th = 0, void (*t)(const Vec&, int) = 0, void (*f)(const Vec&) = 0, bool leak = true) { cases().push_back(Case{n, b, th, t, f, leak}); } };
static const Case& find_case(const std::string& n) { for (auto& c : cases()) if (n == c.name) return c; fprintf(stderr, "unknown case %s\n", n.c_str()); exit(3); }
static std::string prog_str(const std::string& n, const Vec& v) { std::string s = n + ":"; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s; }
static std::string (*unit_oracle)(const std::vector<mc::Event>&) = 0;
struct UnitTest : mc::Test {
  const Case& c; const Vec& v; int nth;
  std::string oracle(const std::vector<mc::Event>& e) override { return unit_oracle ? unit_oracle(e) : std::string(); }
  UnitTest(const Case& c, const Vec& v): c(c), v(v), nth(c.threads) {}
  int threads() const override { return nth; }
  void setup() override { c.body(v); if (!nth) leak(); }
  void thread(int i) override { c.thread(v, i); }
  void finish() override { if (c.finish) c.finish(v); if (nth) leak(); }
  void leak() { if (c.leakcheck && mc::live_blocks()) mc::fail("memory leak: %zu blocks still allocated", mc::live_blocks()); if (c.leakcheck && mc::live_mutexes() > 0) mc::fail("leak: %ld mutexes are never destroyed", mc::live_mutexes()); }
};
static Cli cli; static Agg agg; static uint64_t counter = 0; static double endt; static bool stop = false;
static int unit_preempt = -1;      // bound on preemptions, -1 = none
#ifndef UNIT_STEPS
#define UNIT_STEPS 40000000
#endif
static mc::Options unit_opts(const Case& c) { mc::Options o; o.steps = UNIT_STEPS; o.races = c.threads > 0; if (c.threads) o.preemptions = unit_preempt; return o; }
static void run_case(const char* name, const Vec& v) {
  if (stop) { ++agg.planned; ++agg.incomplete; return; }
  if (counter++ % cli.shards != (uint64_t)cli.shard) return;
  ++agg.planned; const Case& c = find_case(name); UnitTest t(c, v); mc::Result r = mc::explore(t, unit_opts(c));
  uint64_t st = agg.states, tr = agg.transitions; agg.add(r);
  if (!c.threads) { agg.states = st + 1; agg.transitions = tr + v.size(); agg.outcomes = agg.states; }     // one program state per enumerated program
  ++agg.extra[std::string("programs_") + name];
  if (r.violation) { if (agg.add_violation(prog_str(name, v), r)) stop = true; }
  else if (agg.programs % 4001 == 7) agg.sample(prog_str(name, v) + " agrees with the reference");
  if (wall() > endt) stop = true;
}
// all vectors with v[i] in [0, lim[i])
static void product(const std::vector<int>& lim, const std::function<void(const Vec&)>& f) {
  Vec v(lim.size(), 0); for (int l : lim) if (l <= 0) return;
  for (;;) { f(v); size_t i = v.size(); while (i > 0 && ++v[i - 1] == lim[i - 1]) v[--i] = 0; if (!i) return; }
}
static void sequences(int n, int len, const std::function<void(const Vec&)>& f) { for (int l = 0; l <= len; ++l) { if (!l) { f(Vec()); continue; } product(std::vector<int>(l, n), f); } }
static void families(const std::string& profile, bool thorough);
int main(int argc, char** argv) {
  mc::init(); cli = parse_cli(argc, argv);
  if (!cli.replay.empty()) {
    FILE* f = fopen(cli.replay.c_str(), "r"); if (!f) { perror("replay"); return 3; } static char line[1 << 18]; std::string name; Vec v; std::vector<int> sched; std::vector<long> locs;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "program: ", 9) && name.empty()) { std::string s(line + 9); size_t k = s.find(':'); name = s.substr(0, k); std::stringstream ss(s.substr(k + 1)); std::string x; while (std::getline(ss, x, ',')) if (!x.empty() && x != "\n") v.push_back(atoi(x.c_str())); }
      if (!strncmp(line, "schedule: ", 10)) { std::stringstream ss(line + 10); int x; while (ss >> x) sched.push_back(x); }
      if (!strncmp(line, "locations: ", 11)) { std::stringstream ss(line + 11); long x; while (ss >> x) locs.push_back(x); }
    }
    fclose(f); const Case& c = find_case(name); UnitTest t(c, v); auto r = mc::replay(t, unit_opts(c), sched, locs);
    printf("program: %s\n%s\n%s\n", prog_str(name, v).c_str(), r.trace.c_str(), r.violation ? ("VIOLATED: " + r.message).c_str() : "no violation");
    return r.violation ? 1 : 0;
  }
  if (getenv("MC_ONE")) { std::string s = getenv("MC_ONE"); size_t k = s.find(':'); Vec v; std::stringstream ss(s.substr(k + 1)); std::string x; while (std::getline(ss, x, ',')) v.push_back(atoi(x.c_str())); endt = wall() + 1e9; if (getenv("MC_P")) unit_preempt = atoi(getenv("MC_P")); run_case(s.substr(0, k).c_str(), v); agg.write(""); return 0; }
  endt = wall() + cli.budget;
  families(cli.profile, cli.thorough());
  agg.write(cli.out);
  return 0;
}
#endif
