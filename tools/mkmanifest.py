#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

MON = "runtime monitor over generated, mutated and enumerated executions; oracle: "
T = {
 "C01": "panic, abort and CPU-time monitor over fuzzed executions, with and without overflow checks",
 "C02": "AddressSanitizer, ThreadSanitizer, MemorySanitizer, LeakSanitizer and Miri over single- and multi-threaded workloads",
 "C03": MON + "stream buffer before and after each read against independent framing",
 "C04": MON + "independent framing on every prefix of every frame",
 "C05": "offline checker over recorded delivery histories (pieces, reads, leftovers)",
 "C06": MON + "independent framing, allocation counter and buffer snapshot",
 "C07": MON + "write/read round trip compared field by field",
 "C08": MON + "write/read round trip compared field by field",
 "C09": MON + "independent strict 3.1.1 decoder and encoder on the bytes written",
 "C10": MON + "independent strict MQTT 5 decoder and encoder on the bytes written",
 "C11": MON + "independent 3.1.1 encoder, fields compared one by one",
 "C12": MON + "independent MQTT 5 encoder (all forms, all property orders), fields compared one by one",
 "C13": MON + "independent strict 3.1.1 decoder on corrupted frames",
 "C14": MON + "independent strict MQTT 5 decoder on corrupted frames",
 "C15": MON + "code tables of the two standards, all 256 values in every position",
 "C16": MON + "independent property decoder on sections of every declared length",
 "C17": MON + "byte-wise UTF-8 automaton and the bytes on the wire",
 "C18": MON + "buffer snapshots around each write, length against independent encoder",
 "C19": MON + "buffer snapshots around failing writes in sequences of writes",
 "C20": MON + "read-write-read-write chain over everything the reader accepts",
 "C21": MON + "reference matcher, exhaustive small alphabet plus random texts",
 "C22": MON + "reference matcher on witness topics, exhaustive small filters",
 "C23": MON + "reference predicates, exhaustive small alphabet plus random texts",
 "C24": "counting-allocator monitor around each call",
 "C25": "repetition monitor (orders, threads, long runs) and capture of file descriptors 1 and 2",
 "C26": MON + "model of the packet each sequence of builder calls asks for",
 "C27": MON + "credentials set against credentials read; equality of strings",
 "C28": MON + "differential execution of the stream reader and the individual readers",
 "C29": MON + "reference varint codec over value sweeps",
 "C32": MON + "field-by-field comparison of the same values",
 "C31": "offline comparison of the logs of outcomes of x86-64 (three builds), i686 and interpreted big-endian executions",
 "C30": MON + "differential execution of the v4 and v5 modules",
}
NOTE = {
 "C02": "No sanitizer or interpreter report on the executions run; Miri (tree borrows, several scheduler seeds) sees about a thousand small cases per quick run, the native sanitizers about half a million each. Trusts the bytes crate where ThreadSanitizer does not model its fence (tsan.supp).",
 "C25": "Results compared on the calls made; standard output and error of the whole run captured.",
 "C31": "Logs of outcomes agree on the calls made: 720000 cases each in three x86-64 builds and on i686 in the quick tier, several hundred on big-endian s390x, which can only be interpreted here.",
}
DEF = "No violation in the executions observed; counts of cases and events in the evidence. Trusts the reference codec in harness/src, written from the OASIS texts and independent of the crate, and the bytes crate."
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed. ./check.sh replay FILE runs the case a replay file names. Defects found: known_findings.txt."}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                        "technique": T[i], "level": "exploration", "level_note": NOTE.get(i, DEF)})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
