#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
MON = "the real library is run on generated sources; an independent monitor (reference lexer, grammar and layout model in /verif/monitor) judges every execution"
T = {
 "C01": ("runtime monitor: token-sequence conservation between source and output of every execution", "Every execution's output is re-scanned by an independent lexer and compared token by token. Trusts the reference lexer (itself checked against the tool by C08)."),
 "C02": ("runtime monitor: comment conservation (exactly once, in order, same place) against a model of which gaps end lines", "The layout model decides which comments are to survive; comments buried inside one output line are dropped by design and not judged."),
 "C03": ("runtime monitor: metamorphic re-execution on the formatted text", "No reference needed beyond acceptance: output is fed back twice (with and without final newline) and compared byte for byte."),
 "C04": ("sanitized runs (overflow checks, debug assertions, panic and stack capture, counting allocator, CPU watchdog) under hostile inputs; the tool's debug and release builds on bulk texts under a memory limit", "Processes die only in isolated workers; a death is repeated alone before it counts. Extreme nesting and sizes beyond the generated ones are not explored."),
 "C05": ("runtime monitor: acceptance of grammar-directed random derivations", "Derivations come from the specification's grammar as data, not from the parser. Trusts that transcription."),
 "C06": ("runtime monitor: rejection of texts an independent recogniser rejects, under single- and multi-token damage", "Includes every single-token edit of many small programs. Documented leniencies of the tool are part of the reference grammar."),
 "C07": ("runtime monitor: diagnostic positions against reference positions and the furthest viable token", "Exact positions for lexical errors; a syntax error may lie up to two tokens before the first unviable token."),
 "C08": ("runtime monitor: scanned tokens against a reference lexer; all strings of up to four critical characters plus lexeme soups", "Exhaustive over 24 critical characters up to length 4, random beyond."),
 "C09": ("runtime monitor: parse tree against the reference derivation", "The reference derivation is unique after the tool's documented choices; tree read through its debug rendering."),
 "C10": ("runtime monitor: gaps within output lines against a spacing model of the style guide", "The spacing model is part of the trusted base."),
 "C11": ("runtime monitor: line structure of the output against a model of mandatory breaks", "The layout model is part of the trusted base."),
 "C12": ("runtime monitor: wraps of the output against the source's line breaks", "The layout model is part of the trusted base."),
 "C13": ("runtime monitor: indentation of every output line against nesting computed from the reference derivation", "The layout model is part of the trusted base."),
 "C14": ("runtime monitor: blank lines of output against source at every optional place", "The layout model is part of the trusted base."),
 "C15": ("runtime monitor: placement of every comment relative to code lines", "The layout model is part of the trusted base."),
 "C16": ("runtime monitor: metamorphic comparison of re-spaced variants and repeated calls", "Needs no reference model apart from the lexer used to respace."),
 "C17": ("runtime monitor: metamorphic comparison of compositions with their parts", "Needs no reference model apart from the frames' fixed layout."),
 "C18": ("process monitor: file-system snapshots, streams, exit status and system-call log of batch runs against an outcome model", "Content oracle is the library of the same tree; unprivileged runs make unreadable files real."),
 "C19": ("process monitor: snapshots and system-call log of check-mode runs, cross-checked with a formatting run on a copy", "Content oracle is the library and a second run of the tool."),
 "C20": ("process monitor: file-system snapshots with identity and metadata around runs over random trees", "An independent directory walk states which files are to be processed."),
 "C21": ("process monitor: differential comparison of debug build, release build and library under varied invocation", "Three builds are compared byte for byte."),
 "C22": ("fault injection at the C library boundary by enumeration of all file operations of clean runs, with an outcome monitor", "All single faults of the listed kinds on the scenarios, sampled pairs; stat, stream and close failures are not injected. One recorded finding (in-place overwriting)."),
 "C23": ("runtime monitor: all texts of up to two tokens, random derivations and damaged ones at every grammar entry point against the reference recogniser", "Exhaustive for texts of up to two token classes at each entry point."),
 "C24": ("runtime measurement: instruction counts (valgrind) and allocation counts for growing repetitions, growth judged", "Detects growth whose quadratic part reaches about a quarter of the increment at the sizes used; confirmed at larger sizes."),
 "C25": ("process monitor: streams, exit status, snapshots and system-call log for argument vectors", "All listed options and malformed options in first and later position, random ones beyond."),
}
checks = []
for p in sorted(T):
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": t, "level": "fault_enumeration" if p == "C22" else "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo: the library's public interface and the process boundary expose everything the monitors observe. Replay a violation with ./check replay FILE. KNOWN_FINDINGS.md lists findings and repairs."}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
