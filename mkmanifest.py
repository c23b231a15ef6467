"""Writes MANIFEST.json: a check per file in checks/, and the properties without one."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
have = sorted(n[:3].upper() for n in os.listdir(os.path.join(HERE, "checks")) if n[0] == "c" and n.endswith(".py"))
PY = "/opt/venv/bin/python check.py"
COMMON = "Seeded random search, not exhaustive: a run that passes says that no violation occurred in the explored executions. "
NOTE = dict(
    C01="Real log and real loguru code under a simulated scheduler, clock and streams; context switches at byte codes of the log, lines of loguru and every lock or stream step. Linearizability is decided exactly for each recorded history (up to 16 calls).",
    C02="Real log and loguru from a fresh process each run; histories of up to about 20 operations compared with a reference model of streams, threshold and handlers.",
    C03="Faults are injected in simulated text streams and in a simulated file with a volatile buffer; crash points are at every stream step and between calls.",
    C04="Simulated clock and zones (real time zone arithmetic of the C library); texts and tracebacks generated.",
    C05="Real requests, urllib3 and http.client over simulated sockets; plain HTTP only (no TLS).",
    C06="As C05. A response whose header section is cut by an orderly close is a known finding (C06-head-cut); responses delimited by the close itself cannot be told from complete ones and are exempt.",
    C07="As C05; virtual time. The documented meaning of the limits (per connection attempt and per arrival) is judged, not the total duration.",
    C08="As C05; the address changes state between and during operations.",
    C09="As C05; several clients and threads under the simulated scheduler, with interruptions at any socket operation.",
)
for k in range(10, 23):
    NOTE.setdefault(f"C{k}", "Real components over simulated processes (modules executed anew), with reference models written from the documentation; numerical agreement to a relative tolerance of about 1e-8.")
TECH = dict(
    C01="deterministic simulation: seeded thread schedules, linearizability of the recorded history",
    C02="deterministic simulation: seeded histories from a fresh process against a reference model",
    C03="deterministic simulation with injected stream faults, interrupts and crashes",
    C04="deterministic simulation: seeded clock jumps, zones, texts and raising threads",
    C05="deterministic simulation of the network with fault injection; requests compared at the simulated server",
    C06="deterministic simulation of the network with cut, corrupted and segmented responses",
    C07="deterministic simulation of the network in virtual time with stalls and drips",
    C08="deterministic simulation of outage and recovery histories in virtual time",
    C09="deterministic simulation: seeded schedules of concurrent calls with failures and interrupts",
    C10="deterministic simulation: seeded restarts and thread schedules over simulated processes",
    C11="deterministic simulation: seeded storage damage and torn writes",
    C12="deterministic simulation: crash, checkpoint and restart histories against a process that never crashed",
    C13="deterministic simulation: seeded stream histories against a reference model",
    C14="deterministic simulation: refused calls injected in seeded stream histories",
    C15="deterministic simulation: seeded interleavings of instances and threads with aliasing faults",
    C16="deterministic simulation: signal faults injected in seeded streams",
    C17="deterministic simulation: seeded stream histories against a reference model",
    C18="deterministic simulation: seeded setting changes in stream histories against a reference",
    C19="deterministic simulation: seeded controller histories with an invariant on every sample",
    C20="deterministic simulation: seeded sample histories with restarts and an invariant after each call",
    C21="deterministic simulation: failures injected at any point of a fit",
    C22="deterministic simulation: seeded fit and predict histories against a fresh instance",
)
WHY = "a pure function of its arguments: no schedule, clock, I/O, fault, crash or history on which it could depend, so there is nothing to simulate; deciding it means sampling inputs, which is another technique"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    q = json.loads(line)["id"]
    if q in have:
        checks.append(dict(property=q, quick_cmd=f"VERIF_TIER=quick {PY} {q}", thorough_cmd=f"VERIF_TIER=thorough {PY} {q}", evidence_file=f"evidence/{q}.json", technique=TECH[q], level="exploration", level_note=COMMON + NOTE[q]))
    elif int(q[1:]) >= 30:
        na.append(dict(property=q, reason=WHY))
    else:
        na.append(dict(property=q, reason="applicable; its check is not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, sklearn, requests, loguru'", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam is substituted at run time (modules executed anew with simulated locks, clocks, streams and sockets). check.py --replay FILE reproduces a violation; selftest.sh shows determinism."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
