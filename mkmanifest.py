#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
NOTE = {
 "P01": "Every protocol and peer mode is enumerated; schedules, faults, inputs are drawn. The transport is harness code; sessions are the real ones.",
 "P02": "Protocol, kind and position of the password difference enumerated; no proof over all passwords.",
 "P03": "Protocol, kind of mismatch and bit position enumerated; schedules drawn.",
 "P04": "Protocol, message, kind and byte position of the alteration enumerated; histories with many concurrent sessions drawn. Alterations that do not change what the receiver reads are judged by whether agreement is honest agreement.",
 "P05": "A fixed catalogue of insider strategies, each enumerated over protocol, role and position; the attacker plays with an independent implementation. Not a proof against all adversaries.",
 "P06": "Raw identity exchanges, baseline and composed; one known finding (Fiore-Gennaro confirmation does not cover the session identifier).",
 "P07": "Histories of sessions with crashes, restarts, stuck and rewound generators; equality of keys and private credentials over the whole history of a run.",
 "P08": "Message counts and sizes are compared with the protocol's; timing is out of scope.",
 "P09": "Both ends are asked for a key around every step of honest, attacked and crashed runs.",
 "P10": "Outcome of a session compared with what it must be; late deliveries and other sessions drawn.",
 "P11": "Credentials compared through what they do (sessions between independently enrolled parties) and through the authority key.",
 "P12": "Eavesdropper checks on 12-byte windows and key streams with an independent peer supplying the plaintexts; no proof of indistinguishability.",
 "P13": "Three parameter sets, enumerated corruption positions, the independent implementation as oracle.",
 "P14": "Three parameter sets, portable and AVX2 code both executed, independent implementation as oracle.",
 "P15": "Every operation twice with the same randomness, healthy and troubled; lasting failures in a child process; a request for randomness may go unused as a whole (one is, by design) but not in part.",
 "P16": "Independent implementation written from the protocol descriptions plays either role against the real code.",
 "P18": "Both copies of the library; AES and the seed expander included; the four-way Keccak against single permutations. Over-reads are seen only past the end of an input.",
 "P19": "All Linux variants of both copies, chosen at compile time by hiding feature macros; close() itself is never made to fail.",
 "P17": "Structured and random malformed messages at every step; sessions are given up after their first error.",
}
NA = {
 "P20": "Timing and memory-access traces are not observable behaviour in a deterministic simulation; nothing in the simulator schedules or injects them.",
 "P21": "The 64-bit ARM code cannot be built or executed in this sandbox.",
}
TODO = "check not built yet"
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
           "technique": "deterministic simulation with fault injection (seeded search, minimised replay)",
           "level": "exploration", "level_note": NOTE[i]} for i in ids if i in NOTE]
na = [{"property": i, "reason": NA.get(i, TODO)} for i in ids if i not in NOTE]
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the caller-supplied generator, message passing, and link-time interposition of system-call wrappers in the simulator binary."},
          open("/verif/MANIFEST.json", "w"), indent=1)
