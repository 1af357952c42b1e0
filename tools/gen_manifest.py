#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
 "C01": "Every run makes a chain of calls from one seed, over all exported functions; each is first measured without faults, then repeated with the simulated allocator failing a chosen, every or a random subset of its allocations. Result, error, arguments, live blocks and the following call are compared with the fault-free ones. Trusts: the fault-free result as oracle of the same call, the interception of operator new and malloc, ASan/UBSan as monitors.",
 "C02": "Histories of append / repair / set-add operations with failing allocations and invalid code points against plain reference models (byte string, bit set over sampled code points); after each failure the object must be byte- or member-identical. Trusts the reference models.",
 "C03": "Readers over damaged or truncated texts, with allocation failures and an end that moves; position checked after each success and failure against an independent decoder. Trusts that decoder.",
 "C04": "A sender delivers bytes in seeded pieces with delay, stall and loss of the tail; the reader retries in simulated time, in several storage types. Oracle: one-shot decoding by an independent decoder.",
 "C05": "A seeded channel flips, drops, inserts, cuts, duplicates and splices bytes of a text and records which code points arrived intact; the readers and the repair functions must recover exactly those. Trusts the damage bookkeeping.",
 "C06": "Walks and splits by token, with the separator search failing, the allocator failing or the text being damaged at seeded steps, against conservation of the text and a reference splitter.",
 "C07": "Callbacks that throw, re-enter the library or do both at seeded invocations; exception identity, invocation counts, order of the offered code points and repetition are checked.",
 "C08": "Real threads, run one at a time by a seeded scheduler with preemption points at every memory access of the library (ThreadSanitizer instrumentation bound to the simulator's own runtime), allocation failures in single threads; results compared with solo runs, vector-clock race detector, deadlock and bounded-progress checks.",
 "C09": "Texts damaged in transit and hostile positions through all functions under ASan/UBSan bounds (text in exactly-sized blocks and in scratch pages), with step and memory budgets and containment checks on every returned range.",
 "C10": "A simulated output device accepts, truncates, fails or throws at seeded bytes, on streams with and without exception masks; delivered bytes and stream state are checked after every write.",
 "C11": "Editing sessions of many steps against a list-of-characters model, with out-of-bounds positions, invalid code points and allocation failures.",
 "C12": "Texts damaged in transit, repaired by the library, then put through every other operation; no invalid-input report is accepted and produced texts must be valid by an independent validator.",
 "C14": "A sender escapes texts under allocation failures; a seeded channel delivers the records in pieces and damages some; a receiver frames, reads and unescapes them as they arrive, restarting at seeded points. Oracle: an independent parser of JSON and C escapes. Trusts that parser and the framing of the damaged wire.",
 "C15": "Several searchers poll a text that arrives in seeded pieces, forwards or from its end, with restarts and failing allocations; every answer is compared with the greedy list of matches in the whole text from an independent model (letter case as the shipped Unicode data file defines it).",
 "C16": "Queries by position and two resumed walks over a text that arrives in seeded pieces, from either end, complete to the code point or not, with restarts and failing allocations, against a list-of-characters model (combining marks as the shipped Unicode data file defines them).",
 "C17": "A text travels in seeded pieces through a chain of converting relays that stall, crash, restart from what they have passed on and run out of memory; after every piece the output is compared with a reference built from the Unicode data file shipped with the project, not from the library's tables. Trusts that file and the reference.",
 "C18": "Comparisons of a text that arrives in seeded pieces with references derived from it, against the order of the folded code points (folds from the shipped Unicode data file, not the library's tables), and replicas whose directories are ordered by the library under reordered, duplicated and lost messages and rebuilds.",
 "C13": "Recorded answers of calls are compared with the answers of the same calls made in other orders, after failed calls, in a pristine process and under another locale; results handed out are re-read after later calls.",
}
NA = {
 "N01": "A pure function of one argument: no schedule, clock, I/O or fault changes it, so fault simulation adds nothing to plain evaluation over the 1.1 million code points (its failure side is C03, C04, C05).",
 "N02": "A pure table lookup; nothing for a simulator to control. It is decided by enumerating the code points against the shipped data, which is another technique.",
 "N03": "A pure table lookup and a per-code-point mapping; nothing for a simulator to control (its out-of-memory side is C01, its behaviour on repaired text C12).",
 "N04": "A pure table lookup; nothing for a simulator to control. What the algorithms make of the tables on a text that arrives in pieces is C17; termination and validity on any input are C09 and C12.",
 "N05": "An algebraic law of pure comparisons of two numbers; no history, fault or schedule takes part (comparing texts that arrive is C18).",
}
PENDING = {}
checks, na = [], []
ready = sys.argv[1:] or sorted(NOTES)
for p in sorted(NOTES):
    if p in ready:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "deterministic simulation with fault injection (seeded search)",
                       "level": "exploration", "level_note": NOTES[p]})
    else:
        na.append({"property": p, "reason": PENDING.get(p, "not built yet")})
na += [{"property": p, "reason": r} for p, r in sorted(NA.items())]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are operator new and malloc (link-time), callbacks, iterators and stream buffers "
              "the API already takes, the bytes and positions passed in, and, for threads, compiler instrumentation. "
              "Commits in /repo are 'fix:' commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
