"""Writes MANIFEST.json."""
import json

T = "deterministic simulation: "
FAULT = "seeded search over schedules and faults; sampling, not proof. "
NOTE = FAULT + ("Trusts the simulator in sim/src and its seams (scheduler, allocator, clock, randomness, environment, lookup contexts); "
                "threads are interleaved at basic-block and memory-access granularity, sequentially consistent. ")
C = {
 "C01": ("preemptive seeded thread schedules, each request compared with the same request alone in a fresh process",
         "Preemption points are chosen uniformly, at lookups, in start-up code and at accesses to static data and lock waits."),
 "C02": ("lookup errors and panics injected, later and concurrent requests compared with fresh-process runs", ""),
 "C03": ("lookup failures injected at every reachable lookup; the outcome must be the injected error", "Up to 14 lookups of a request are each failed once; more are sampled."),
 "C04": ("lookup failures and expiring deadlines injected; no lookup and at most 200000 steps may follow", ""),
 "C05": ("stacked, multi-tenant, reloaded, re-entrant and renamed rule sources against a plain context", ""),
 "C06": ("endless and circular reference supplies on a bounded stack with a step budget", "A run of more than 30 million steps (some 100 times what any clean run needs) counts as endless; the stack is 2 MiB."),
 "C07": ("hash seeds, clocks, clock jumps, environment, threads, stacks, addresses and history varied; results and lookups compared", ""),
 "C08": ("lookup panics and refused allocations injected; no verdict may come of it", ""),
 "C09": ("storage and transport damage injected into documents and schema texts", "Damage keeps bracket nesting at most 9 deep because of the two known findings, which are demonstrated separately."),
 "C10": ("alternatives abandoned at injected points before a pattern; verdict compared with the pattern alone", "Alternatives that end in a schema error are skipped."),
 "C11": ("repeated waves of clean and faulty requests with the library's memory accounted by the simulated allocator", "A leak has to grow in each of at least 6 (cached: 400 larger) successive waves to count."),
}
NA = {
 "C20": "Acceptance of one document is a pure, single-threaded function of schema and document: there is no schedule, time, I/O or fault for it to depend on, so simulation would only be input fuzzing against a second implementation of RFC 8610.",
 "C21": "Pure arithmetic on one value; no schedule, time, I/O or fault can influence it.",
 "C22": "Parsing is a pure function of the text; nothing for a simulator to schedule or to fail. (What damaged text may do is C09.)",
 "C23": "A relation between two pure functions of the same value; no schedule, time, I/O or fault is involved.",
 "C24": "A relation between two pure functions of the same text; no schedule, time, I/O or fault is involved.",
 "C25": "A pure matching rule of one validation; no schedule, time, I/O or fault is involved.",
 "C26": "A pure scoping rule of one validation; no schedule, time, I/O or fault is involved. (That contexts decide all other names is C05.)",
 "C27": "A constant passed to the regex crate and that crate's complexity bound; no schedule, time, I/O or fault is involved.",
}
m = {
 "version": 1,
 "setup_cmd": "sim/build.sh",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": T + t, "level": "exploration", "level_note": (NOTE + n).strip()}
  for p, (t, n) in C.items()
 ],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are the library's LookupContext trait, libc symbols and the allocator replaced at link time, and compiler-inserted coverage callbacks (sim/rustc-wrap.sh). Replay a violation with ./replay.sh FILE. Known findings: KNOWN_FINDINGS.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
