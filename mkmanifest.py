#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

BASE = "Trusts the independent codec in lib/pwref (cross-checked against the 13 sample saves and against the tool on every run). "
T = {
    "C01": ("byte-identity monitor over read -> JSON text -> write of generated and real saves", BASE + "Shows absence of loss on the saves explored (every variant of every raw block, boundary values per field), not for all saves."),
    "C02": ("differential oracle: JSON compared with an independent decoder, in order and type", BASE + "Explored saves only; the meaning of fields is the one documented by the base revision."),
    "C03": ("differential oracle: bytes of edited documents compared with an independent encoder, then read back", BASE + "Each kind of edit at every kind of place; sequences of edits are sampled."),
    "C04": ("fault injection into typed fields with a refusal monitor", BASE + "Every typed place of the generated documents with boundary-violating values; unlisted odd values are not explored."),
    "C05": ("differential oracle over decoder subsets", BASE + "Subsets are sampled (all singles, all complements, random ones), not all 2^14."),
    "C06": ("fault injection (cut, extended, unknown, mutated content) with a byte-preservation monitor", BASE + "Every cut of each block variant; mutated bytes are judged only where an independent canonical decoder cannot excuse them."),
    "C07": ("independent strict container parser over written containers", "Sizes 0..600 completely, boundaries around powers of two and random payloads beyond; zlib itself is trusted."),
    "C08": ("exhaustive single-fault injection into containers with a content monitor", "Every byte value at every position, every truncation and header rewrite of small containers; multi-byte damage is sampled. Damage that forms another valid container is excluded by an independent parser."),
    "C09": ("directory-state monitor around and during the prompt of the convert command", "All answer classes times options; the state while waiting is observed through the audit event and a pty."),
    "C10": ("fault injection (damaged inputs, failing writes at every offset class, signals) with an output oracle", BASE + "Write failures are produced by file size limits, /dev/full and injected errors; power loss is not modelled."),
    "C11": ("command-level oracle of documented option semantics", BASE + "Names and option combinations are sampled from a grammar of hostile names."),
    "C12": ("strict-JSON monitor and differential oracle with the option on", BASE + "Non-finite numbers at every floating-point place of the generated documents."),
    "C13": ("model-based history checker of identifier operations", "Every byte position and value, random identifiers and operation histories; both implementations."),
    "C14": ("cross-configuration comparison of recorded results", BASE + "Listed environments only; compares results between environments and never against a fixed expectation."),
    "C15": ("history and interleaving checker: each result compared with the same operation alone", "Sampled histories, forced thread switches (switch interval and settrace yields) and concurrent processes."),
    "C16": ("resource monitor (calls, allocations, time) on hostile counts and lengths", "Every count and length of the generated documents replaced by hostile values; linear budgets with more than tenfold slack."),
    "C17": ("primitive-level round-trip monitor against an independent encoder", "16-bit types exhaustive, others by boundaries and random values; sequences sampled."),
    "C18": ("truth oracle for the self-test's verdict", BASE + "Verdict compared with the conversion's actual outcome."),
    "C19": ("metamorphic oracle: equivalent documents give identical saves", BASE + "Combinations of the alternative forms are sampled at every applicable place."),
    "C20": ("differential oracle: independent resolver over generated exports, metamorphic rearrangement", "Consistent exports only (unique blueprint names, no cycles)."),
    "C21": ("recording decoders and encoders as a trace monitor of every call, and an independent decoder as oracle", BASE + "Eight styles of decoders at sampled paths; what a caller's decoder does beyond reading its own property is its own affair."),
    "C22": ("history checker: each write and show of documents edited in memory compared with an independent encoder", BASE + "Histories of up to four steps, sampled; objects other than those the library returns or documents are not tried."),
}
checks = []
for pid, (technique, note) in T.items():
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "runtime monitoring: " + technique,
        "level": "fault_enumeration" if pid in ("C08", "C10") else "exploration",
        "level_note": note,
    })
with open("MANIFEST.json", "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed at public boundaries (library calls, files, exit status, audit and profile events). The commits on top of the base revision are fixes, listed in known_findings.txt.",
    }, f, indent=1)
    f.write("\n")
