#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]

HOOKS = ["d8efeb4", "2126595", "38e13c1"]
# property -> what decides it
CHECKS = {
    "S01": "seeded crash/disk-fault simulation of journalled values, recovery judged against the acknowledged history",
    "S02": "seeded crash/disk-fault simulation of concurrent compaction and mutation, remount compared with a reference value",
    "S03": "seeded medium damage on simulated disks, recovered state must be a state of the recorded history",
    "S04": "seeded simulation of overlapping file operations with crashes, reads checked against a per-path reference model",
    "C01": "seeded simulation of replicas exchanging states with loss, duplication and reordering; replicas with the same updates compared",
    "C02": "seeded simulation of replicas exchanging states, final values compared with a reference evaluation of the causal history",
    "C03": "seeded simulation of replicas exchanging deltas with loss, duplication, reordering and trimmed histories, compared with full-state exchange",
    "G01": "seeded simulation of mesh nodes with delayed, lost and reordered messages, deliveries checked against a per-topic reference model",
    "T01": "seeded search over programs and scheduling seeds, executions repeated and replayed under changed heap, hash keys, clock and slicing",
    "T02": "seeded search over programs, policies and schedules, every step checked as a refinement of a reference state machine",
    "T03": "seeded simulation of worker-thread interleavings, parallel result compared with the single-threaded one",
    "T04": "seeded search over concurrent programs and schedules, interpreter and bytecode machine compared",
    "R01": "seeded simulation of relay and clients over a faulty network, each client's deliveries checked against a reference of acknowledged subscriptions",
    "R02": "seeded simulation of a relay with misbehaving clients, stalls, resets and accept failures, bounded progress of the good clients checked",
    "M01": "seeded simulation of programs exchanging values through the relay over a faulty network, received values compared with those sent",
    "M02": "seeded simulation of redundant messages over a link that loses, doubles, delays and reorders their parts, received values compared with those sent",
    "M03": "seeded simulation of framed byte streams cut, corrupted and ended anywhere, frames compared with a reference parse after every chunk",
    "K01": "seeded simulation of sealed traffic under an adversary that alters, replays and misdirects messages, acceptances checked against a reference",
    "K02": "seeded simulation of concurrent sealing with crashes and disk faults, emitted pad ranges checked for overlap over the whole history",
    "M05": "seeded simulation of programs receiving corrupted, truncated, replayed and invented messages among valid ones, survival, memory and deliveries checked",
    "J01": "seeded search over programs and arrival times of background compilation results, output and error compared with bytecode alone",
    "J02": "seeded crash/disk-fault/damage simulation of processes storing and loading compiled bodies, loads compared with what was stored under the key",
    "T05": "seeded simulation of tasks, pipes, stops and computations on the real executor under a simulated clock, values, endings and progress checked against the history",
    "L01": "seeded simulation of an editor session with analyses and checks of arbitrary duration, published diagnostics compared with those of the current text",
    "L02": "seeded simulation of incremental edits and highlighting requests, reconstructed text and tokens compared with a full analysis",
    "L03": "seeded simulation of saves, changes and closes overlapping external checks that take any time or fail, shown findings checked against the save history",
    "L04": "seeded simulation of a project changing on a simulated disk while it is scanned and re-read, final symbols and references compared with the files",
    "F01": "seeded simulation of a file fetched in pieces over a faulty network with crashes of both sides, accepted file compared with the source",
    "V01": "seeded simulation of validations with clock jumps, outages, crashes, disk faults and cache damage, every answer checked against a model of the verdicts that may be on disk",
    "P01": "seeded simulation of a developer's machine running build-tool commands with crashes, power cuts and disk errors, every file compared with its old and its asked-for content",
    "P02": "seeded simulation of logins, logouts and publications with registry outages, crashes and disk errors, credentials, their permissions and every request checked against a model",
    "P03": "seeded simulation of publications with disk errors and failing registries, the uploaded package compared with the project on disk",
    "D01": "seeded simulation of replicated durable nodes with message, disk and crash faults, durability and convergence checked",
}
NA = {
    "N01": "A statement about one sequential, pure function (kernel type checking): no thread, clock, file or peer takes part, so no schedule or fault can change the answer; it needs proof or input search, not simulation.",
    "N02": "Proof certification is sequential and pure; no schedule or fault influences it.",
    "N03": "Translation correctness of sequential programs is a question about inputs only; the parts where time or threads matter (tier-up timing, concurrent programs) are J01, T03 and T04.",
    "N04": "Parsing and translation are single-threaded and do no I/O; only inputs vary.",
    "N05": "Agreement of pure functions with published standards depends on inputs only; simulation has no seam to vary.",
    "N06": "Encode/decode of one value is a pure function of the value; what faults do to encoded bytes is M05 and M03.",
    "N07": "Formatting is a pure function of the text.",
}
PENDING = "No check has been built for it yet; nothing is claimed about it."

checks = [{
    "property": i,
    "quick_cmd": f"bash run.sh {i}",
    "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
    "technique": "deterministic simulation with fault injection: " + CHECKS[i],
    "level": "exploration",
    "level_note": "Seeded search over simulated executions: finds violations and replays them exactly, does not prove their absence. Real repository code runs on a simulated OS; the evidence file lists components run real and stubbed.",
} for i in ids if i in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "cfg(logos_sim)", "enable": "RUSTFLAGS='--cfg logos_sim' (set by build.sh)", "source_commits": HOOKS},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in CHECKS],
    "notes": "Every check is `harness check <ID>` (V01: `licence check V01`, P01-P03: `largo-check check <ID>`); `harness replay <file>` reproduces a reported failure exactly. See DESIGN.md.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
