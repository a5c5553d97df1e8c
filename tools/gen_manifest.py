#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
READY = os.environ.get("READY", "S01 S02 S03 S04 S05 S06 C01 C02 C03 E01 E02 A01 A02 A03 D01 D02 D03 D04 D05 D06 D07 D08 D09 D10 D11").split()
NA = {
}
FAM = {
 "S": ("deterministic simulation with fault injection: the real server main() under a seeded scheduler, simulated network and tuners; {o}",
       "Seeded search over interleavings, network and tuner faults of the whole server in one process; no exhaustive claim. Trusts the simulated driver, network and scheduler (sim/, rtlstub/)."),
 "C": ("deterministic simulation with fault injection: the real client package against a simulated, faulty network and server; {o}",
       "Seeded search over replies, fragmentation, delays and connection failures; no exhaustive claim. Trusts the simulated network and scheduler."),
 "E": ("deterministic simulation with fault injection: real server, real clients and real packet readers in one process; {o}",
       "Seeded search over interleavings, delays, losses and client failures; no exhaustive claim. Trusts the simulated driver, network and scheduler."),
 "A": ("deterministic simulation with fault injection: stations, noisy bit channel and real decoders as seeded tasks; {o}",
       "Seeded search over frames, bit errors, aborts, slips and interleavings; no exhaustive claim. Trusts the reference sender and receiver in sim/worlds/ax25."),
 "cpu": ("deterministic simulation with fault injection: processors and systems of all kinds on which programs start, with missing and failing files, short reads and failing system calls; {o}",
       "Seeded search over processors, systems, options and I/O faults; no exhaustive claim. The few instructions and system calls the detection is made of (CPUID, XGETBV, MIDR, sysctl) are seams answered by the simulator, which is trusted."),
 "D": ("deterministic simulation with fault injection: sample sources with short and lost transfers feeding real instances in preemptible tasks; {o}",
       "Seeded search over block cuts, faults and interleavings; no exhaustive claim. Assembler kernels run atomically; the amd64 build runs as it is, the others (D01, D04, D09, D10) on the simulated processors of sim/isa, which are trusted."),
}
ORACLE = {
 "S01": "ownership monitor on driver calls and refusal check over the history",
 "S02": "resource census after every session and stream end",
 "S03": "reply-per-line and liveness oracle over the wire",
 "S04": "reference packetizer over the bytes the tuner delivered",
 "S05": "reference state machine over replies, hardware reads and datagrams",
 "S06": "reference model of replies against the simulated tuner's state",
 "C01": "reply model against a scripted server",
 "C02": "wire transcript and connection census",
 "C03": "queue-of-samples reference model",
 "E02": "model of the program's dialogue, its exit status and the synced contents of its file at every crash point",
 "E01": "end-to-end model over client results, tuner state and samples",
 "A01": "sender transcript and independent reference receiver",
 "A02": "independent reference receiver (must / may / must-not sets)",
 "A03": "snapshot comparison and solo-run comparison of concurrent decoders",
 "D01": "one-piece run of the same filter (bit-exact) and independent difference equations",
 "D02": "solo-run comparison under preemption and slice-ownership monitor",
 "D03": "independent DFT of the samples since the last reset",
 "D04": "one-piece run (bit-exact), element-wise reference and guard regions",
 "D05": "independent DFT of the last N samples, recovery after disturbances",
 "D07": "independent analog-prototype response after the settling time its poles imply",
 "D08": "independent interpolation kernels over the window and over the whole stream",
 "D09": "exact phase steps of the stream sent",
 "D10": "portable results and documented values against the code of each processor; 386, ARM and ARM64 machine code runs on simulated processors with checked memory and registers",
 "D11": "independent reading of the simulated processor and system; detection code of all architectures runs in one process",
 "D06": "key transcript of the sender, solo-run comparison, split-read comparison of the program's output",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if i not in READY:
        na.append({"property": i, "reason": "its simulation is not finished yet"})
        continue
    t, n = FAM["cpu" if i == "D11" else i[0]]
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t.format(o=ORACLE[i]), "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument a copy of the current sources and build it with go build -overlay (check.sh). ./check.sh replay FILE replays a violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
