# What decides each property: harness executables, profiles, build variants.
ASSUMPTIONS = [
    "sequentially consistent schedules: accesses are explored as interleavings; weak-memory effects are covered only through the data race detector",
    "the Boost and libstdc++ headers of the sandbox are part of the explored code; their compiled, uninstrumented parts (allocation, exceptions, locale) are trusted",
    "the engine /verif/mc (scheduler, heap, race detector) and the oracle in the harness are trusted",
]
CONC = ("conc: every schedule (or every schedule up to the stated preemption bound) of every program of the family on the real library, "
        "2-3 threads on one signal; scheduling points at every mutex operation, every access to memory shared between threads and every observation event; "
        "states = distinct happens-before states, outcomes = distinct observable results per program; oracle over the event log of each execution")
SEQ = ("seq: every operation sequence of the families (alphabet, depth, slot scripts and starting histories in harness/seq_families.h) is run on the real library "
       "under the memory checker and its complete event log is compared with the reference model in harness/seq.cpp; states = distinct model states, transitions = model operations, "
       "every complete execution is a model trace replayed against the implementation")
def seq(profile, cfg=0, **k):
    d = {"bin": "seq", "profile": profile}
    if cfg: d["variant"] = "_%d" % cfg; d["flags"] = ["-DCFG=%d" % cfg]
    d.update(k); return d
def conc(profile, **k): return dict({"bin": "conc", "profile": profile}, **k)
NV = ["-DBOOST_NO_CXX11_VARIADIC_TEMPLATES"]      # the preprocessor-generated implementation; skipped where it does not build
def nv(d): return dict(d, variant=d.get("variant", "") + "_nv", flags=d.get("flags", []) + NV, optional=True)
CE = ["-DCONSTEMIT"]      # the same programs with every emission made through the const overload of operator()
def ce(d): return dict(d, variant=d.get("variant", "") + "_ce", flags=d.get("flags", []) + CE)
NT = {"variant": "_nt", "flags": ["-DBOOST_DISABLE_THREADS"], "optional": True}
TSEQ = "explicit-state enumeration of operation sequences against a reference model, every trace replayed on the implementation"
TCONC = "stateless model checking of the implementation: exhaustive schedule exploration with happens-before state caching"
CHECKS = {}
def add(pid, parts, covers, technique, note): CHECKS[pid] = {"parts": parts, "covers": covers, "technique": technique, "note": note}
NSEQ = "all operation sequences and slot scripts of the families up to their depth, on the real code; beyond the depth and the alphabets nothing is claimed"
NCONC = "all interleavings of 2-3 threads per program (unbounded, or up to the preemption bound shown in the evidence) at sequential consistency plus race detection"
add("C01", [seq("C01")] + [seq("C01v", c) for c in (1, 2, 3, 4, 14)] + [nv(seq("C01v"))], SEQ, TSEQ, NSEQ)
add("C04", [seq("C04"), seq("C04", 12), nv(seq("C04"))], SEQ, TSEQ, NSEQ)
for _i in ("C02", "C03"): add(_i, [seq(_i), ce(seq(_i))], SEQ, TSEQ, NSEQ)
for _i in ("C05", "C06", "C07"): add(_i, [seq(_i)], SEQ, TSEQ, NSEQ)
add("C14", [seq("C14"), seq("C14", 14)], SEQ, TSEQ, NSEQ)
add("C12", [seq("C12"), seq("C12F"), seq("C12F", 11), seq("C12E"), seq("C12E", 11), ce(seq("C12")), ce(seq("C12E"))], SEQ + "; C12E: the same for every other operation, for emissions with nested operations and for emissions started by slots: an operation that fails has no effect, an emission that fails ends there; C12F: connect fails at its n-th faultable step (allocation, copy of the slot function or group, group comparison) for every n until it succeeds, after every history up to the depth", TSEQ + "; exhaustive fault points", NSEQ)
add("C13", [seq("C13"), ce(seq("C13")), {"bin": "sizes", "profile": "C13g"}, conc("C13")], SEQ + "; " + CONC + " (abandoned emissions, judged on what is released and freed); C13g: every balanced cycle of operations up to the depth, on several base lists, outside and inside an emission, repeated 64 times; the peak of live blocks and slot functions must not rise from the first half to the second", TSEQ + "; " + TCONC, NSEQ + "; " + NCONC)
UNIT = ("every program of the enumerated family (case x parameter vector, harness/%s.cpp) is run on the real library under the memory and leak checker and compared step by step with the reference in the harness; "
        "states = enumerated programs, transitions = their steps; programs with threads are explored over all schedules")
TUNIT = "bounded exhaustive enumeration of executions of the implementation against a reference model"
NUNIT = "all programs of the enumerated families up to their bounds, on the real code; beyond them nothing is claimed"
def unit(b, pid, extra=()): add(pid, [{"bin": b, "profile": pid}] + list(extra), UNIT % b, TUNIT, NUNIT)
add("C08", [seq("C08"), ce(seq("C08")), {"bin": "slots", "profile": "C08t"}], SEQ + "; " + UNIT % "slots", TSEQ, NSEQ); unit("slots", "C09", [nv({"bin": "slots", "profile": "C09"})]); unit("comb", "C10", [nv({"bin": "comb", "profile": "C10"})])
add("C11", [seq("C11")] + [{"bin": "args", "profile": "C11", "variant": "_%d" % n, "flags": ["-DARITY=%d" % n], "shards": 1} for n in range(10)] + [{"bin": "args", "profile": "C11", "variant": "_v%d" % n, "flags": ["-DARITY=%d" % n, "-DVOIDSIG"], "shards": 1} for n in range(10)] + [nv(seq("C11"))], SEQ + "; " + UNIT % "args", TSEQ + "; " + TUNIT, NSEQ)
unit("decon", "C22", [nv({"bin": "decon", "profile": "C22"})]); unit("decon", "C23")
for _i in ("C15", "C16", "C17", "C18", "C19"): add(_i, [conc(_i)], CONC, TCONC, NCONC)
add("C20", [seq("C20"), ce(seq("C20")), conc("C20")], SEQ + "; " + CONC, TSEQ + "; " + TCONC, NSEQ + "; " + NCONC)
add("C21", [seq("C21"), ce(seq("C21")), conc("C21"), nv(seq("C21"))], SEQ + "; " + CONC, TSEQ + "; " + TCONC, NSEQ + "; " + NCONC)
add("C26", [seq("C26", c) for c in list(range(11)) + [12, 14]] + [nv(seq("C26")), dict(seq("C26"), **NT)], SEQ + "; the same histories on 15 signal configurations, each compared with the same model", TSEQ, NSEQ)
add("C24", [{"bin": "mutex", "profile": "C24"}, seq("C24", 7), seq("C24", 9), seq("C24F", 7), seq("C24E", 7), dict(seq("C24"), **NT)],
    "mutex: every schedule of every program of 2-3 threads from the alphabet of lock, try_lock and nested critical sections, with race detection on the protected data; every operation sequence of one thread on two mutexes and on dummy_mutex; "
    + SEQ + " (a user-supplied Mutex must be free after every operation, also after exceptions injected at every faultable step)", TCONC + "; " + TSEQ + "; exhaustive fault points", NCONC + "; " + NSEQ)
unit("buffer", "C27"); unit("sizes", "C25", [nv({"bin": "sizes", "profile": "C25"})])
# large counts: the programs of C25 that decide one other property, run for that property
for _i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C16", "C20", "C21"):
    CHECKS[_i]["parts"].append({"bin": "sizes", "profile": "S" + _i[1:]}); CHECKS[_i]["covers"] += "; S" + _i[1:] + ": " + UNIT % "sizes" + ", for counts well beyond every internal buffer and beyond 8 and 16 bits"
    if TUNIT not in CHECKS[_i]["technique"]: CHECKS[_i]["technique"] += "; " + TUNIT
