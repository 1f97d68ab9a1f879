#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXP, FLT = "exploration", "fault_enumeration"
C = {
 "C01": (EXP, "differential run-time oracle (reference codec) over generated and exhaustive short inputs",
         "every real encode/decode is compared with an independent codec; short inputs exhaustively, longer ones sampled"),
 "C02": (EXP, "differential run-time oracle over all folding paths, const and run time",
         "sampled keys, all width pairs and paths per key"),
 "C03": (EXP, "run-time monitor: brute-force reference for key length plus dispatch trace oracle on engineered collisions",
         "key sets are sampled around collision boundaries; the interface family covers collisions at each length and direction"),
 "C04": (EXP, "history checker (exactly-once, request/reply pairing) over seeded schedules of the real client",
         "sampled schedules and peer behaviours; single scheduler thread"),
 "C05": (EXP, "trace-specification monitor: event log of the real server against a sequential reference",
         "sampled frame scripts, faults and schedules for each dispatcher key length"),
 "C06": (FLT, "fault injection on receive and send at sampled points with a trace monitor of loop exits",
         "hostile byte strings and transport failures at every kind of position; sampled"),
 "C07": (EXP, "history checker under hostile incoming frames",
         "sampled junk, duplicate and undecodable frames interleaved with live traffic"),
 "C08": (FLT, "fault injection (close, receive/send failure, dropping clones) with quiescence and liveness monitors",
         "the failure point is sampled over the whole history; hangs are detected at quiescence of a deterministic executor, so no timeouts are involved"),
 "C09": (EXP, "online subscription-specification checker over recorded histories in virtual time",
         "sampled schedules, depths and waiting times; queue occupancy is modelled exactly"),
 "C10": (EXP, "online conservation checker (received + reported lost = arrived) over recorded histories",
         "sampled subscriber populations and speeds"),
 "C11": (EXP, "exactly-once / order / integrity checker of everything handed to the transport",
         "sampled schedules, queue depths, stalls, abandonment and failures"),
 "C12": (EXP, "wire monitor of key and sequence widths plus duplicate-refusal history checker",
         "sampled schedules across the key length change; wrap-around exercised on long runs"),
 "C13": (EXP, "differential run-time oracle over streams and chunkings, exhaustive for small streams",
         "all chunkings of small streams, sampled larger ones; nine buffer sizes"),
 "C14": (EXP, "end-to-end differential run-time oracle: report produced by the real client from the real server (and from a scripted device with losses and faults) against the interface definition",
         "sampled interfaces, schemas, delays, losses; virtual time"),
 "C15": (EXP, "differential run-time oracle over a zoo of types: computed lists against an independent recursive closure",
         "a fixed zoo of macro-expanded interfaces covering all schema node kinds; duplicates, sharing and nesting"),
 "C16": (FLT, "fault injection on a simulated USB IN endpoint in virtual time; host-side transfer reassembly checker plus deadline monitor, both stack versions",
         "sampled messages, bus stalls, disable points, abandonment and concurrent senders"),
 "C17": (EXP, "differential run-time oracle: transfers put on a simulated USB OUT endpoint against frames returned",
         "sampled transfer sequences and fault points, all lengths around buffer and packet boundaries"),
 "C18": (EXP, "run-time monitor decoding every transmitted log frame independently and comparing with the text",
         "sampled texts, patterns, key lengths and buffer sizes; boundary sweep with multi-byte characters"),
 "C19": (EXP, "differential run-time oracle: the library with use-std against the library without it (native, and interpreted by Miri for a 32-bit and a big-endian machine), plus live traffic between the two builds",
         "constants of one interface exhaustively, codec vectors and live conversations sampled"),
 "C20": (EXP, "AddressSanitizer over all workloads, ThreadSanitizer and Miri over the multi-threaded workload, Miri over single-threaded scenarios, live-heap growth monitor",
         "sampled inputs and schedules; Miri explores seeded preemptions with weak memory emulation"),
 "C21": (EXP, "history checker under cancellation at sampled points",
         "futures are dropped after a sampled number of polls; late replies and reuse checked"),
 "C22": (FLT, "fault injection on a simulated USB library linked in place of nusb; transfer-log checker and liveness monitor",
         "sampled frames, packet sizes, transfer results, stall bursts and device descriptors"),
 "C23": (FLT, "byte-level differential oracle on a real pseudo-terminal with injected garbage, splits and hang-ups",
         "sampled streams, chunkings and hang-up moments"),
 "C24": (FLT, "fault injection on a simulated browser API linked in place of web-sys; transfer-log checker and closure monitor",
         "sampled frames, transfer results, device populations and settlement orders; the module is built natively through a cfg hook"),
 "C25": (EXP, "end-to-end history checker: results, handler runs and received messages of a real client and a real server on one link",
         "sampled operations, schedules, key lengths and ends, over a recording link and over the library's channel transports"),
 "C26": (EXP, "simulated host enumerating the real device stack: descriptor checker plus traffic monitor on the announced endpoints across resets, deconfiguration and reconnection",
         "sampled configurations, request orders and bus events; one Poststation device per process and version, re-enumerated many times"),
 "C27": (EXP, "run-time monitor of generated programs: random interface definitions are built (the macros' compile-time code runs in rustc's interpreter, its refusals are the observation), accepted ones run on the real server with a dispatch oracle, refused ones have an accepted twin",
         "sampled definitions; 16 kinds of unsoundness, each with a twin that differs only in the offending entry"),
 "C28": (FLT, "history checker over a real client and the in-memory test peer under injected fatal errors, dropped peers and closes; exactly-once, order, matching and liveness monitors",
         "sampled operations, link capacities, peer decisions, schedules and points of failure"),
 "C29": (FLT, "end-to-end history checker over the real host and device USB transports joined by a simulated controller and cable, with the cable pulled at sampled moments and plugged in again",
         "sampled operations, message lengths, controller timing, schedules and moments of unplugging"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg vp_native_webusb",
               "enable": "check.sh C24 builds the harness with RUSTFLAGS=--cfg=vp_native_webusb and feature webusb",
               "source_commits": ["b3bd32c"]},
     "checks": [], "not_applicable": []}
for p in props:
    if p in C:
        lv, tech, note = C[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                            "technique": tech, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
