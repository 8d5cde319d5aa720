// Shared by the harness executables: command line, sharding, result aggregation.
#ifndef COMMON_H
#define COMMON_H
#include "mc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>

struct Cli { std::string only;
  std::string profile, tier = "quick", out, replay;
  int shard = 0, shards = 1; double budget = 1e9; bool verbose = false;
  bool thorough() const { return tier == "thorough"; }
};
inline double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline Cli parse_cli(int argc, char** argv) {
  Cli c; if (argc > 1) c.profile = argv[1];
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--tier") c.tier = nx();
    else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &c.shard, &c.shards); }
    else if (a == "--budget") c.budget = atof(nx().c_str());
    else if (a == "--out") c.out = nx();
    else if (a == "--replay") c.replay = nx();
    else if (a == "-v") c.verbose = true;
    else if (a == "--only") c.only = nx();
  }
  return c;
}
inline std::string jesc(const std::string& s) {
  std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r;
}
struct Violation { std::string program, message, trace; std::vector<int> schedule; std::vector<long> locs; bool deterministic = true; };
struct Agg {
  uint64_t programs = 0, planned = 0, executions = 0, complete = 0, pruned = 0, states = 0, transitions = 0, outcomes = 0, accesses = 0, points = 0, max_points = 0, incomplete = 0, restarts = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<Violation> viol; std::vector<std::string> samples;
  double t0 = wall();
  void add(const mc::Result& r) {
    ++programs; executions += r.executions; complete += r.complete; pruned += r.pruned; states += r.states; transitions += r.transitions;
    outcomes += r.outcomes; accesses += r.accesses; points += r.points; restarts += r.restarts; if (r.max_points > max_points) max_points = r.max_points;
    if (!r.exhausted && !r.violation) ++incomplete;
  }
  void sample(const std::string& s, size_t max = 3) { if (samples.size() < max) samples.push_back(s); }
  bool add_violation(const std::string& prog, const mc::Result& r) {
    Violation v; v.program = prog; v.message = r.message; v.trace = r.trace; v.schedule = r.schedule; v.locs = r.locs; v.deterministic = r.deterministic;
    static const size_t most = getenv("MC_MAXV") ? atoi(getenv("MC_MAXV")) : 8; viol.push_back(v); return viol.size() >= most;
  }
  void write(const std::string& file) const {
    FILE* f = file.empty() ? stdout : fopen(file.c_str(), "w"); if (!f) { perror(file.c_str()); exit(3); }
    fprintf(f, "{\"programs\":%lu,\"planned\":%lu,\"executions\":%lu,\"complete\":%lu,\"pruned\":%lu,\"states\":%lu,\"transitions\":%lu,\"outcomes\":%lu,\"accesses\":%lu,\"points\":%lu,\"max_points\":%lu,\"incomplete\":%lu,\"restarts\":%lu,\"wall\":%.3f",
      programs, planned, executions, complete, pruned, states, transitions, outcomes, accesses, points, max_points, incomplete, restarts, wall() - t0);
    fprintf(f, ",\"extra\":{"); bool c = false; for (auto& e : extra) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", e.first.c_str(), e.second); c = true; } fprintf(f, "}");
    fprintf(f, ",\"samples\":["); c = false; for (auto& s : samples) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(s).c_str()); c = true; } fprintf(f, "]");
    fprintf(f, ",\"violations\":["); c = false;
    for (auto& v : viol) {
      fprintf(f, "%s{\"program\":\"%s\",\"message\":\"%s\",\"deterministic\":%s,\"trace\":\"%s\",\"schedule\":[", c ? "," : "", jesc(v.program).c_str(), jesc(v.message).c_str(), v.deterministic ? "true" : "false", jesc(v.trace).c_str());
      for (size_t i = 0; i < v.schedule.size(); ++i) fprintf(f, "%s%d", i ? "," : "", v.schedule[i]);
      fprintf(f, "],\"locs\":["); for (size_t i = 0; i < v.locs.size(); ++i) fprintf(f, "%s%ld", i ? "," : "", v.locs[i]);
      fprintf(f, "]}"); c = true;
    }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
  }
};
// Boost assertion failures are violations
namespace boost {
inline void mc_assert_failed(const char* e, const char* file, long line) {
  const char* b = strrchr(file, '/'); mc::fail("assertion failed: %s (%s:%ld)", e, b ? b + 1 : file, line);
}
#ifdef BOOST_ENABLE_ASSERT_HANDLER
inline void assertion_failed(char const* e, char const*, char const* file, long line) { mc_assert_failed(e, file, line); }
inline void assertion_failed_msg(char const* e, char const*, char const*, char const* file, long line) { mc_assert_failed(e, file, line); }
#endif
}
#endif
