#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the registered monitors."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/vmon/*.go"):
    have |= set(re.findall(r'register\(&Check\{\s*ID:\s*"(C\d\d)"', open(f).read()))
MD = "generated workload + monitor that re-reads the Markdown with goldmark and compares it with the HTML parsed by x/net/html"
TECH = {
 "C01": "in-process and isolated execution of hostile documents under crash, hang and memory watchdogs",
 "C02": "render-event counters, output size and child-process memory monitored over growing documents against complexity bounds",
 "C03": "differential monitor over entry points, histories, readers and other processes",
 "C04": "Go race detector over stressed concurrent conversions and registrations with injected delays, results compared with sequential ones",
 "C05": "event-log checker over sequential, overlapping and nested conversions, under the Go race detector",
 "C06": "recording handlers of every kind and an offline checker of the event log against the ordering specification",
 "C07": "fault injection into readers and plugin initialisation with an error-return monitor",
 "C08": "exact-output monitor against a model of every documented option; rejection monitor for values next to the documented ones",
 "C09": "token conservation and order monitor over uniquely numbered texts",
 "C10": MD, "C14": MD, "C15": MD, "C16": MD, "C17": MD, "C19": MD, "C20": MD, "C21": MD, "C22": MD, "C24": MD,
 "C11": "verbatim-text monitor over generated texts with escaping disabled",
 "C12": "placeholder monitor: output character census and comparison with a neutral character in the same place",
 "C13": "output-shape monitor (trimming, blank-line runs per container prefix) over generated documents",
 "C18": "destination monitor against an independent RFC 3986 resolver",
 "C23": "grid monitor: GFM table read back by goldmark compared with the HTML table model",
 "C25": MD + "; second conversion compared",
 "C26": "metamorphic monitor over pairs of documents that differ invisibly",
 "C27": "tree monitor against a reference model of white-space collapsing",
 "C28": "metamorphic monitor over blocks converted alone and in containers",
 "C29": "monitor over registrations: recorded renderer calls and expected output by tag type",
 "C30": "process monitor: the built command against the library, byte for byte, over flag combinations",
 "C31": "process monitor with directory snapshots before and after each run",
 "C32": "process monitor: input set against output set over directory trees and repeated runs",
 "C33": "process monitor under injected I/O faults (full devices, limits, permissions, missing paths)",
 "C34": "process monitor against an independent selector model",
 "C35": "differential monitor over parts of trees: in place, detached, copied, as document, in any order; tree compared before and after",
 "C37": "monitor over the syntax tree of the Markdown: every node must have an element of the (hostile) document as its reason",
 "C36": "monitor inside handlers: what the context renders against what the converter renders",
}
NOTE = {"C04": "held on the executions and interleavings observed; the race detector reports only races that occurred"}
checks = []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
          "level_note": NOTE.get(i, "held on every generated execution observed (counts in the evidence file); nothing is claimed about executions that were not generated")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "its monitor is not built yet"} for i in ids if i not in have]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", [x["property"] for x in m["not_applicable"]])
