#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Seeded search, not enumeration: a clean run is evidence over the executions sampled (counts in the evidence file). "
        "Trusted: the simulator, the reference model of the harness, the Go toolchain and standard library. ")
N = {
"C01": ("deterministic simulation: seeded trees, legal I/O misbehaviour of source and store, reference tree model",
        "Round trips through the real tarfs code on simulated source and storage; compared with the reference tree node by node."),
"C02": ("deterministic simulation: seeded directories, legal I/O misbehaviour, reference model incl. refusal of the unrepresentable",
        "Round trips through the real arfs code on simulated source and storage; both directions (accepts what fits, refuses what does not) are checked."),
"C03": ("deterministic simulation: seeded trees biased to layout edges, dirty destinations, legal I/O misbehaviour, reference model",
        "Round trips through the real EROFS writer and reader on simulated source and storage; the image is additionally decoded by the reader's own inode accessors only."),
"C04": ("deterministic simulation with fault injection into every source and destination call position class",
        "Faults are placed at calls that a fault-free execution of the same plan made; nil is accepted only when the archive is complete."),
"C05": ("deterministic simulation: crash after any prefix of the write log, reopen what is left",
        "Every write boundary of every sampled image plus sampled torn writes. Model: writes reach the destination in issue order."),
"C06": ("deterministic simulation with read-error injection, recovery phase, reference model",
        "Errors are tolerated only for calls during which a fault fired in that task; full check after recovery."),
"C07": ("deterministic simulation: truncation of the store at sampled points, reference model",
        "40 cuts per archive, biased to block boundaries and the end."),
"C08": ("deterministic simulation with storage corruption (flips, extreme fields, lost, misdirected and garbage blocks), step and allocation budgets",
        "Panics, stack exhaustion, step budgets (statement granularity) and allocation sizes are observed; checksums are repaired in half of the cases so damage is reached. Archives with sparse tar entries are left out."),
"C09": ("deterministic simulation: seeded link graphs against a reference POSIX resolver, with delays and read errors",
        "Chains longer than 32 links may be refused."),
"C10": ("deterministic simulation: seeded interleavings at statement granularity, race detector with hand-offs hidden, read errors and delays, sequential reference",
        "Goroutines run one at a time under the simulator; races are judged by the happens-before order of the program's own synchronisation."),
"C11": ("deterministic simulation: seeded interleavings at statement granularity, linearizability checking (porcupine) against a sequential model, race detector",
        "Histories of up to 24 calls plus the final state; a linearizability check that times out is counted as inconclusive, never reported."),
"C12": ("deterministic simulation: seeded interleavings with failing calls, deadlock and step-budget detection, usability probe afterwards",
        "Locks are simulated, so a lock left held is seen as a deadlock at once; liveness is bounded by a step budget two orders above normal."),
"C13": ("deterministic simulation: seeded interleavings of writers and handle users, snapshot reference model, race detector",
        "Each handle's complete trace must be explained by one content current while it was opened."),
"C14": ("deterministic simulation: paired executions that differ only in clock, map order, chunking, delays and scheduling",
        "Byte comparison of archives and a dump comparison of views."),
"C15": ("deterministic simulation with fault injection: handle accounting in the simulated source",
        "Every open, read, stat and close of source files is accounted by the simulated source."),
"C16": ("deterministic simulation: seeded interleavings of Create with writers of its live source, version timelines as the oracle, race detector",
        "Contents are unique per write, so every byte of the archive is attributable."),
"C17": ("deterministic simulation: seeded tar logs built independently, replay model, legal I/O misbehaviour and read errors",
        "Logs on which extraction tools disagree are not generated (see the statement)."),
"C18": ("deterministic simulation: images from an independent EROFS builder on simulated storage, reference model",
        "The builder follows the kernel's on-disk format documentation and shares no code with the library."),
"C19": ("deterministic simulation: seeded ar archives built independently on simulated storage, reference model",
        "Well-formed variants of other tools and single malformed fields."),
"C20": ("deterministic simulation: coherence of listings and lookups, directory paging under concurrent writers at statement granularity",
        "Pages of any size on memfs handles while other goroutines add entries."),
"C21": ("deterministic simulation: seeded chains of conversions through simulated storage with concurrent readers, reference model",
        "Owners are not compared, times to the second, chains through ar only for flat trees."),
"C22": ("deterministic simulation: seeded trees, legal I/O misbehaviour and faults; strict independent decoder of the on-disk format and reference tree model as oracles",
        "The decoder follows the kernel's format documentation and what fsck.erofs demands; it accepts the mkfs.erofs image in the test data. No kernel or erofs-utils is available here."),
"C24": ("deterministic simulation: seeded trees, legal I/O misbehaviour and faults; strict independent tar and ar decoders and reference tree model as oracles",
        "The decoders share no code with archive/tar or the library."),
"C25": ("deterministic simulation: images from an independent EROFS builder, seeded interleavings of goroutines sharing the image, read errors, race detector, what the builder wrote as the oracle",
        "Numbers of inodes that are not reachable from the root may be answered in any way but a crash."),
}
level = {k: "exploration" for k in N}
level["C05"] = level["C04"] = "fault_enumeration" if False else "exploration"
import re
src = "".join(open(os.path.join(V, "sim/h", f)).read() for f in os.listdir(os.path.join(V, "sim/h")))
have = set(re.findall(r'ID: "(C\d\d)"', src)) | set(re.findall(r'register\(roundtrip\("(C\d\d)"', src))
checks = []
for k in sorted(N):
    if k not in have:
        continue
    checks.append(dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough",
        evidence_file=f"evidence/{k}.json", technique=N[k][0], level=level[k], level_note=BASE + N[k][1]))
na = [
      dict(property="C23", reason="Pure functions of their arguments with no schedule, clock, fault or interleaving; their observable effects are covered by C01, C03, C18 and C21.")]
for k in sorted(N):
    if k not in have:
        na.append(dict(property=k, reason="Not built yet."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    hooks=dict(guard="none: /repo carries no hooks; sources are instrumented through 'go build -overlay' at check time", enable="check.sh builds the current /repo sources with sim/cmd/instr's overlay", source_commits=[]),
    notes="Deterministic simulation with fault injection; see DESIGN.md. ./check.sh <id> replay <file> re-executes a replay file.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
