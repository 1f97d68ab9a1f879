#!/usr/bin/env python3
"""Adds what the multi-threaded stage observed to evidence/<ID>.json."""
import json, re, sys
ev, summ, pid, tier, seed, viol, secs = sys.argv[1:8]
try:
    d = json.load(open(ev))
except Exception:
    d = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
         "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "executions of the multi-threaded workload", "samples": []}, "wall_s": 0}
lines = [l.strip() for l in open(summ)] if summ else []
ev_n = dn = 0
for l in lines:
    m = re.match(r"native MT-OK (\S+) rounds=(\d+)", l)
    if m: ev_n += int(m.group(2)); dn += int(m.group(2))
    m = re.match(r"(?:few|tsan|asan) \S+.* executions=(\d+).*distinct=(\d+)", l)
    if m: ev_n += int(m.group(1)); dn += int(m.group(2))
    m = re.match(r"(miri) \S+ schedules=(\d+).*distinct_outcomes=(\d+)", l)
    if m: ev_n += int(m.group(2)); dn += int(m.group(3))
c = d["coverage"]
c["evaluations"] += ev_n
c["distinct_nontrivial"] += dn
c["sanitizers" if pid == "C20" else "multi_threaded"] = lines
c["rule"] += "; multi-threaded: each native round is one randomly generated workload with at least two application threads, a Miri execution counts as distinct by its observed outcome"
if lines and not c["samples"]: c["samples"] = lines[:3]
if not c["samples"]: c["samples"] = ["violation in the multi-threaded stage"]
d["wall_s"] = max(d["wall_s"], float(secs))
if int(viol): d["violations"] = d.get("violations", 0) + int(viol)
json.dump(d, open(ev, "w"), indent=1)
