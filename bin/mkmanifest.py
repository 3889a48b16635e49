#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("TLC checks the laws of the specification exhaustively on finite instances and judges recorded calls of the real code "
          "on the full specification; millions of further calls are screened by a Go mirror of the specification, and any call "
          "the mirror does not expect is decided by TLC. Assumes TLC, the Go toolchain and the mirror (a wrong mirror can hide, "
          "never invent, a violation). Inputs are generated, not exhausted, so it is not a proof for all inputs.")
KERNEL = (" The assembly itself is executed by TLC in SvbKernel on symbolic data: every explored control value or zero pattern is "
          "decided for all data (quick: 512, or 64 for C10, per kernel; thorough: all 65536); the instruction semantics are "
          "bound to the machine by replaying recorded calls.")
GIANT = " Calls of 2^30 words are judged as runs (TracePeriodic); they are only made when 7 GB of memory are free."
DESIGNS = (" Broken designs of the model must be rejected in every run, otherwise the check reports itself broken.")
T = {  # technique, level note
 "C01": ("TLA+ format specification, laws model checked; TLC trace validation of recorded writer calls, up to 2^30 words", COMMON + GIANT),
 "C02": ("TLA+ round-trip law, model checked; TLC trace validation of recorded write/read pairs of all implementations", COMMON),
 "C03": ("TLA+ decoding specification, laws model checked; TLC trace validation of recorded reader calls, up to 2^30 words", COMMON + GIANT),
 "C04": ("TLA+ differential coding specification, laws model checked; TLC trace validation of recorded calls, up to 2^30 words", COMMON + GIANT),
 "C05": ("TLA+ agreement specification; TLC trace validation of pairs of results in several CPU feature configurations", COMMON),
 "C06": ("TLA+ model of the readers' loops and footprints; TLC trace validation of reader calls on guarded memory", COMMON + DESIGNS),
 "C07": ("TLA+ model of the writers' loops and footprints; TLC trace validation of writer calls with guarded allocations", COMMON + DESIGNS),
 "C08": ("TLA+ block specification; TLC executes the assembly on symbolic data (SvbKernel); trace validation of encoder calls", COMMON + KERNEL),
 "C09": ("TLA+ block specification; TLC executes the assembly on symbolic data (SvbKernel); trace validation of decoder calls", COMMON + KERNEL),
 "C10": ("TLA+ frame conditions; footprints of the assembly for all data (SvbKernel); trace validation on exactly sized guarded slices", COMMON + KERNEL),
 "C11": ("TLA+ session specification; model of interleaved calls; TLC-generated histories replayed, TLC trace validation of histories and schedules",
         COMMON + DESIGNS + " Schedules are those the runtime produces; the race detector's happens-before analysis extends them."),
 "C12": ("TLA+ dispatch specification, broken designs rejected; TLC trace validation of observed kernel entries and modes per CPU configuration",
         "CPU features are switched off by GODEBUG in real processes; kernel entries are counted by an overlay of the assembly; the "
         "extensions each kernel needs come from its disassembled instructions." + DESIGNS),
 "C13": ("TLA+ specification of ports, broken layouts rejected; type checks and builds of all ports; TLC trace validation of calls on 386 on every other port's source files, and on a big-endian port (emulated)",
         COMMON + DESIGNS + " Code of other ports runs on this machine (386, or its source files compiled for amd64); big-endian: the emulator in harness/cmd/mips; foreign assembly cannot be run."),
 "C14": ("TLA+ table specification; TLC validation of dumped tables, helpers and regenerated artefacts; regenerated assembly executed in SvbKernel", COMMON + KERNEL),
 "C15": ("TLA+ composition laws, model checked; TLC trace validation of streams composed from blocks and segments", COMMON),
 "C16": ("TLA+ sufficiency predicate, model checked; TLC trace validation of calls on truncated input", COMMON),
 "C17": ("TLA+ varint specification, laws model checked; TLC trace validation of recorded calls; thorough: every single value", COMMON),
 "C18": ("TLA+ specification of the README splice, broken design rejected; TLC trace validation of runs of the tool",
         "READMEs and benchmark outputs are generated; each run is judged byte for byte by TLC." + DESIGNS),
}
done = set(os.environ.get("CHECKS", "").split()) or set(T)
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                 "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in sorted(T) if p in done],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in done],
     "notes": "Specification language: TLA+ (TLC). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
