#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json (run after changing anything here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = ["libmbus from /repo's working tree (decoder, error display), compiled optimised with overflow checks and debug assertions, optimised without them, and not optimised at all, each for a part of the runs"]
RULE = ("One run is one seed: hash(VERIF_SEED, property, run number) decides every content, fault, delay and schedule. "
        "Runs are compared by a digest of everything that happened in them; ")

P = {}

P["C01"] = dict(
    runs=(20000, 1000000),
    rule=RULE + "a run is non-trivial if a decodable telegram was cut at least once between its first and last byte.",
    states="distinct (first byte, place of the cut within the telegram, decodable or not, answer of the decoder)",
    real=REAL, stub=["sender, line and clock (simulated; 4.58 ms per byte)"],
    technique="deterministic simulation: seeded fragmentation, stall and dead-line schedules against the streaming decoder; streaming vs. at-once metamorphic oracle plus link-layer reference model",
    note="Sampled telegrams and splittings; two thirds of the telegrams are delivered byte by byte, which visits every prefix. Trusts the at-once decode as the reference for content and the simulator's link-layer model for where a telegram ends.")

P["C02"] = dict(
    runs=(100000, 4000000),
    rule=RULE + "a run is non-trivial if at least one telegram arrived damaged.",
    states="distinct (kind of fault sequence, telegram length, kind of telegram)",
    real=REAL, stub=["sender and line (simulated)"],
    technique="deterministic simulation: seeded line fault injection; accept/reject compared with a link-layer reference model",
    note="Sampled telegrams and fault sequences, some of them systematic (every byte altered, every truncation, every lost or repeated byte of one telegram). Whether the content of an undamaged long telegram is acceptable is asked from the library itself, so only link-layer decisions are judged.")

P["C03"] = dict(
    runs=(60000, 5000000), checked_share=80, plain_share=4,
    rule=RULE + "every run that decodes at least one noisy, damaged or corrupted telegram is non-trivial.",
    states="distinct (first byte, bytes delivered, accepted or not)",
    real=REAL, stub=["sender, line and meter memory (simulated)"],
    technique="deterministic simulation: seeded line noise, damage and meter memory corruption; panic, abort, signal and step-limit detection in a process per run",
    note="Sampled. A hang is a call that executes more than 400 million control flow edges or 60 s of processor time.")

P["C04"] = dict(
    runs=(180000, 9000000),
    rule=RULE + "a run is non-trivial if at least one telegram was damaged or hit by another one.",
    states="distinct (undamaged telegrams in the burst, whole burst undamaged or not, telegrams reported, control information of the first)",
    real=REAL, stub=["meters, wire and clock (simulated)"],
    technique="deterministic simulation: meters with generated records on a simulated wire with loss, damage, repeats and collisions; every report compared record by record with what the meter's model put in",
    note="Sampled record lists. The expected reading is known because the simulated meter chose it before encoding; the value tables are the simulator's own copy of the library's documented tables.")

P["C05"] = dict(
    runs=(320000, 20000000),
    rule=RULE + "a run is non-trivial if at least one telegram was damaged or hit by another one.",
    states="distinct (undamaged telegrams in the burst, whole burst undamaged or not, telegrams reported, control information of the first)",
    real=REAL, stub=["meters, wire and clock (simulated)"],
    technique="deterministic simulation: several meters sharing a simulated wire with loss, damage, repeats and collisions; every reported control, address and header compared with the sending meter's",
    note="Sampled headers. A colliding mixture that still satisfies every link rule is left out of judgement (counted).")

P["C06"] = dict(
    runs=(320000, 20000000),
    rule=RULE + "a run is non-trivial if at least one telegram was damaged or hit by another one.",
    states="distinct (undamaged telegrams in the burst, whole burst undamaged or not, telegrams reported, control information of the first)",
    real=REAL, stub=["master, meters, wire and clock (simulated)"],
    technique="deterministic simulation: master and meters exchanging every kind of message over a simulated wire with loss, damage, repeats and collisions; every report compared with what its sender chose",
    note="Sampled messages. Wireless-only kinds are compared in kind and header only, because the library reports nothing else of them.")

P["C09"] = dict(
    runs=(120000, 6000000),
    rule=RULE + "a run is non-trivial if at least one burst held two or more telegrams that had to be told apart.",
    states="distinct (telegrams that must be decoded, items in the burst, clean or dirty, receiver variant)",
    real=REAL, stub=["senders, line and clock (simulated)", "the receive loop around the decoder (part of the simulator: 1 byte resynchronisation, pause timeout)"],
    technique="deterministic simulation: seeded streams of telegrams, noise, damage and pauses in seeded pieces; order, exactly-once and recovery checked over the run's history",
    note="Sampled streams. Telegrams sent after noise without a pause in between may be lost; everything else must be decoded exactly once and in order.")

P["C13"] = dict(
    runs=(80000, 6000000),
    rule=RULE + "a run is non-trivial if at least one content was corrupted.",
    states="distinct (control information, length class, legal or not)",
    real=REAL, stub=["meter memory and line (simulated)"],
    technique="deterministic simulation: seeded meter memory corruption before the checksum; legality and markings compared with a reference decoder",
    note="Sampled corruptions. The reference decoder is the simulator's own, written from the published layout and the library's documented leniencies; where the standard leaves a choice it follows the library.")

P["C07"] = dict(
    runs=(32000, 1600000),
    rule=RULE + "a run is non-trivial if decodes of at least two threads were interleaved.",
    states="distinct (threads, threads frozen, switches between them, class of the number of earlier decodes)",
    real=REAL + ["threads of the operating system, one of them running at a time"],
    stub=["thread scheduler (the simulator's, switching threads at chosen control flow edges, allocations and lock operations)", "clock, environment and randomness (simulated)"],
    technique="deterministic simulation: seeded interleaving of real decoder threads at control flow edges, with histories, abandoned decodes, frozen threads, clock jumps and environment changes; results compared with those of a pristine process",
    note="Sampled schedules. Threads are switched at edges of the library's code, its allocations and its lock operations, one running at a time, so effects of weak memory ordering are out of reach.")

P["C08"] = dict(
    runs=(160000, 8000000),
    rule=RULE + "a run is non-trivial if at least one message of the conversation was lost, damaged, late, repeated or a device restarted.",
    states="distinct (kinds of faults that hit the session, telegrams read, attempts used, way of addressing, phase it ended in)",
    real=REAL, stub=["master's and meters' link state machines (the simulator's, acting on what the library reports)", "wire and clock (simulated)"],
    technique="deterministic simulation: master and meters as event driven state machines over a simulated wire with loss, damage, delay, repeats, echoes, restarts; exactly-once and order of records over the history, progress within one attempt per telegram once faults stop",
    note="Sampled conversations. Judged in full only where every message was either intact or recognisably damaged; damage that satisfies all link rules again is excluded (counted). The conversation protocol is the simulator's own implementation of the EN 13757-2 procedures.")

P["C10"] = dict(
    runs=(36000, 2000000), checked_share=65, plain_share=8,
    rule=RULE + "a run is non-trivial if a hostile or damaged byte string was decoded.",
    states="distinct (way of decoding, outcome, length class, number of allocations)",
    real=REAL, stub=["allocator (metered, in front of the real one)", "line and meter memory (simulated)"],
    technique="deterministic simulation: seeded hostile lengths, counts, damage and long histories under a metered allocator; peak, total and retained memory bounded at every allocation",
    note="Sampled. Bounds: held at any moment at most 16 KB + 800 bytes per byte received, allocated in total at most 32 KB + 2000 per byte received (about four times what was ever measured).")

P["C11"] = dict(
    runs=(100000, 5000000),
    rule=RULE + "a run is non-trivial if at least one call was disturbed or a file torn.",
    states="distinct (raw or listing, torn or not, short reads, interruptions, failed reads, failed opens, size class, loaded or refused, kind of place)",
    real=REAL + ["the file system of the operating system, in memory"], stub=["results of open and read calls (scripted)", "contents and damage of the files (simulated)"],
    technique="deterministic simulation: seeded file damage, torn files, short, interrupted and failing reads injected into the library's real file loading; loaded bytes compared with the file's",
    note="Sampled. Forms of listing that are merely unusual (single digits, other white space, an empty file) may be refused or loaded, but not loaded as other bytes.")

P["C12"] = dict(
    runs=(28000, 1400000),
    rule=RULE + "a run is non-trivial if at least one call of the tool was disturbed.",
    states="distinct (files, readable, undecodable, ended well or not, hard, soft or fatal fault, calls)",
    real=["the inspection tool test_parse as built from /repo's working tree, as a process of its own, with the real file system"],
    stub=["results of its open, read and write calls (scripted through a preloaded library)", "captures (simulated)"],
    technique="deterministic simulation: the real tool as a process whose open, read and write calls get seeded short, interrupted, failing and fatal results; output and exit status checked against what each file holds",
    note="Sampled. Expected reports are made with the library in the simulator, so C12 judges the tool, not the decoder. Failures of closing files are not injected.")

P["C17"] = dict(
    runs=(100000, 5000000),
    rule=RULE + "a run is non-trivial if a content arrived in fragments, was longer than 1000 bytes or was corrupted.",
    states="distinct (record: kind, length, bytes of it there; list: sender gone or not, torn or not, records complete, end reached, size class; message: control information, size, accepted or not)",
    real=REAL, stub=["meters, gateway, datagram network and clock (simulated)", "reassembly of fragments (the simulator's)"],
    technique="deterministic simulation: record lists and messages forwarded in fragments over a network with loss, repeats, reordering and death; every record read off the growing front, the whole list and every message compared with what was sent, and with the same content inside a telegram",
    note="Sampled contents up to 60 KB. The network is the simulator's; what is judged are the decoders of records, record lists and messages that are handed what has come over so far.")

CHECKS = sorted(P)
conf = {
    "wall_s": {"quick": 150, "thorough": 7200},
    "assumptions": [
        "x86-64 Linux; one process per run, forked from the same state",
        "sampled, not enumerated: a clean batch is evidence, not proof",
    ],
    "properties": {},
}
for k, v in P.items():
    d = {"runs": {"quick": v["runs"][0], "thorough": v["runs"][1]}}
    for key in ("rule", "states", "real", "stub", "checked_share", "plain_share", "lanes", "assumptions"):
        if key in v:
            d[key] = v[key]
    conf["properties"][k] = d
json.dump(conf, open(os.path.join(HERE, "checks.json"), "w"), indent=1)

NA = [
    ("C14", "A pure function of one byte, with no schedule, clock, fault or interleaving in it, and the oracle would be the text of the standards, which is not available here. The tables as implemented are mirrored by the simulator's model, so accidental changes to them are caught by C04, C05 and C06."),
    ("C15", "A compile-time function of the macro's argument; nothing of it exists at run time that a simulator could schedule or disturb. Wrong expansions of the patterns in use are caught by C04."),
    ("C16", "A pure function of the rejected bytes without schedule or fault dimension. C01 checks that the error does not depend on how the bytes were delivered; C03 that displaying it never fails."),
]
for k in [f"C{i:02}" for i in range(1, 14)]:
    if k not in P:
        NA.append((k, "Check under construction."))
manifest = {
    "version": 1,
    "setup_cmd": "./check.py setup",
    "hooks": {"guard": "none", "enable": "The library needs no hooks: the checks compile it unchanged, with compiler-inserted edge callbacks (sim/rustc-wrap.sh) and with allocator, clock, randomness, environment, thread and file calls replaced at link time.", "source_commits": []},
    "checks": [
        {"property": k, "quick_cmd": f"VERIF_TIER=quick ./check.py {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {k}",
         "evidence_file": f"evidence/{k}.json", "technique": P[k]["technique"], "level": "exploration", "level_note": P[k]["note"]}
        for k in CHECKS],
    "not_applicable": [{"property": k, "reason": r} for k, r in NA],
    "notes": "check.py replay FILE reproduces a violation from its replay file. See DESIGN.md.",
}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
