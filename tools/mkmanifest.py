#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "Samples, not all, of the input space (seeded, edges favoured). Trusts the independent reader, writer and models in harness/ref and the Go runtime."
CL = "Samples schedules of the real client over loopback TCP with a scripted provider; what was not scheduled is not covered. Trusts the recorded log of the provider, harness/ref and the Go runtime."
T = {
 "C01": ("runtime monitoring: round-trip oracle over generated values", REF),
 "C02": ("runtime monitoring: bit-exact round-trip oracle and independent Ember+ real reader", REF),
 "C03": ("runtime monitoring: round-trip oracle over generated lengths", REF),
 "C04": ("runtime monitoring: independent base-128 oracle, refusal monitor", REF),
 "C05": ("runtime monitoring: refusal monitor over every prefix and mistagged value", REF + " One known finding is reported."),
 "C06": ("runtime monitoring: supervised fuzzing with panic, CPU-time and allocation monitors", REF),
 "C07": ("runtime monitoring: model comparison after encode and decode", REF),
 "C08": ("runtime monitoring: independent Glow reader over encoded messages", REF),
 "C09": ("runtime monitoring: independent encoder with varied length forms, model comparison", REF),
 "C10": ("runtime monitoring: decode and re-encode compared by an independent reader", REF),
 "C11": ("runtime monitoring: sequential model of a matrix, refusal monitor", REF),
 "C12": ("runtime monitoring: tree model over histories of attach, move, decode and path calls", REF),
 "C13": ("runtime monitoring: lookup oracle over generated trees and paths", REF),
 "C14": ("runtime monitoring: tree model over message histories", REF),
 "C15": ("runtime monitoring: notification-counting spies against a model", REF),
 "C16": ("runtime monitoring: independent Glow reader over requests, tree-unchanged monitor", REF),
 "C17": ("runtime monitoring: independent S101 receiver, chunked-stream delivery oracle", REF),
 "C18": ("runtime monitoring: fault injection into S101 streams, delivery oracle", REF),
 "C19": ("runtime monitoring: event-order oracle over S101 streams with keep-alives", REF),
 "C20": ("runtime monitoring: scripted provider, conservation and order checker over its log", CL),
 "C21": ("runtime monitoring: scripted provider, keep-alive counting checker over its log", CL),
 "C22": ("runtime monitoring: lifecycle stress with fault injection, state model, liveness and goroutine-leak monitors", CL),
 "C23": ("runtime monitoring: Go race detector under concurrent stress", "The race detector reports only races of executed schedules; " + CL),
 "C24": ("runtime monitoring: scripted provider tree, completion-count and tree-equality checker", CL),
 "C25": ("runtime monitoring: per-listener history checker with timed answers, goroutine-leak monitor", CL),
 "C26": ("runtime monitoring: sequential model of a value holder", REF),
 "C27": ("runtime monitoring: Go race detector and result comparison over parallel independent workloads", "The race detector reports only races of executed schedules. " + REF),
 "C28": ("runtime monitoring: position oracle over nested readers", REF),
 "C29": ("runtime monitoring: captured-output oracle over sequences of level changes and messages", REF),
 "C30": ("runtime monitoring: panic monitor and text oracle over renderings", REF),
 "C32": ("runtime monitoring: differential runs with recording loggers, error-conservation checker", REF + " " + CL),
 "C33": ("runtime monitoring: sequential model of contents, getters and encodings compared after each assignment", REF),
 "C35": ("runtime monitoring: tree model that ignores what does not fit, listener-call predictor, refusal monitor", REF),
 "C37": ("runtime monitoring: bitwise CRC oracle, differential runs of two decoders", REF),
 "C34": ("runtime monitoring: scripted provider sending hostile streams, marker and liveness checker over its log", CL),
 "C36": ("runtime monitoring: race detector and per-client conservation checker over concurrent clients", "The race detector reports only races of executed schedules; " + CL),
 "C31": ("runtime monitoring: sequential models of buffers, stacks, frame lists and errors", REF),
}
import re, glob
have = set()
for f in glob.glob(root + "/harness/checks/*.go"):
    have |= set(re.findall(r'rt\.Check\{ID: "(C\d\d)"', open(f).read()))
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in have:
        na.append({"property": i, "reason": "the check is still being built"})
        continue
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
        "technique": t, "level": "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks: the checks drive the public API of the unmodified packages. Findings are in known-findings.txt."},
  open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
