#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the table below (run after changing either)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS
NOTE = "Seeded search over simulated executions of the real code, %s. Not exhaustive: sampled seeds over small template instances (mostly degree 2 to 4096). Trusts the simulator's interception of OpenMP, pthreads, rand, malloc and clocks, the compiler's thread-sanitizer instrumentation points (flavour t) and the reference model."
WHAT = {
  "C01": ("deterministic simulation: seeded worker schedules and team sizes, exact comparison with a schoolbook product, happens-before race detection", "exact oracle, all team sizes 1-8, nested teams"),
  "C02": ("deterministic simulation: seeded interleavings of concurrent callers at first use, compared with the operations run alone; race detection", "exact comparison of results and draws with isolated runs, cold tables"),
  "C03": ("deterministic simulation with fault injection: seeded allocation failures at every index, retry, heap accounting", "exact comparison with never-failed runs"),
  "C04": ("deterministic simulation: seeded degraded random streams (stuck, bursts, alternating, periodic, stuck bits), worst-case noise oracle", "error bound 8 checked on every coefficient"),
  "C05": ("deterministic simulation: recorded draw log of the random source under seeded interleavings and clock faults; freshness and coverage checked over the history", "history check over masks, errors and draws"),
  "C06": ("deterministic simulation: seeded random streams, schedules and memory contents; worst-case error oracle", "worst-case noise bound on every coefficient"),
  "C07": ("deterministic simulation: seeded operation histories against an executable ring model", "exact or worst-case bound on every coefficient"),
  "C08": ("deterministic simulation: seeded random streams, schedules, memory contents; slotwise model of the transform", "analytic worst-case bound"),
  "C09": ("deterministic simulation: seeded random streams, schedules, memory contents; Chebyshev/Taylor model", "analytic bound; EvalMod's approximation error measured at 2^-41.3, allowed 2^-39"),
  "C10": ("deterministic simulation: seeded call orders, random streams, schedules; coefficient/slot model", "analytic worst-case bound"),
  "C11": ("deterministic simulation: seeded whole-pipeline runs with degraded random streams and schedules", "error bound derived level by level and capped 3 bits above the measured precision"),
  "C12": ("deterministic simulation: the same operation under different histories, memory contents, clocks, threads; exact equality", "exact comparison"),
  "C13": ("deterministic simulation: heap accounting over seeded operation histories, callers and teams", "exact live-block count"),
  "C14": ("deterministic simulation: seeded histories and interleavings of encode/decode calls; long-double embedding model", "rounding bound on every slot"),
  "C19": ("deterministic simulation: seeded histories of in-place operations on matrix objects over garbage memory, against a dense model after every step", "dense model, rounding bound"),
  "C21": ("deterministic simulation with fault injection: seeded histories, overlapping callers, failing allocations in guarded memory; every access of the library checked (address sanitizer under the simulator's scheduler)", "guard zones around arguments and heap blocks, address checks on every access"),
  "C22": ("deterministic simulation with fault injection: fair seeded schedules, teams up to 20, degraded random streams, failing allocations; progress within a bounded number of events and draws, deadlock detection", "liveness as a bound on events and draws"),
  "C15": ("deterministic simulation: simulated monotonic and wall clocks with jumps; printed time against simulated time", "exact comparison"),
}
PURE = "a pure single-threaded function of its arguments: no schedule, clock, I/O, randomness or fault can influence it, so simulation would only be input generation; "
NA = {
  "C16": PURE + "its effect on ring products is covered by C01",
  "C17": PURE + "nothing in the library depends on it but printing",
  "C18": PURE + "its effect on ring products is covered by C01",
  "C20": "a statistical law about experiment programs, without schedule, fault or history; the experiments print and nothing in the library depends on them",
}
checks = [{"property": c, "quick_cmd": "python3 run.py %s" % c, "thorough_cmd": "python3 run.py %s --thorough" % c, "evidence_file": "evidence/%s.json" % c,
           "technique": WHAT[c][0], "level": "exploration", "level_note": NOTE % WHAT[c][1]} for c in sorted(CHECKS)]
todo = [c for c in WHAT if c not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] + [{"property": c, "reason": "check not built yet"} for c in todo],
     "notes": "No hooks in /repo: every seam is at compile or link level (see DESIGN.md). Replay: python3 run.py --replay FILE."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
