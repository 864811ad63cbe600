#!/usr/bin/env python3
"""Writes claims.json (what check.py reads per property) and MANIFEST.json."""
import json
KANI = ["C02", "C03", "C06", "C11", "C12"]
LEVEL = {}   # filled in below
TRUSTED = [
 "Verus 0.2026.09.13 and z3 (soundness of the verifier); a loop or recursion with a `decreases` clause is proved to end, the others are proved partially",
 "extract/: the mechanical extraction of /repo/src into one Verus file (every rewrite and drop is listed in DESIGN.md)",
 "the key type's Ord, Eq, Clone and Borrow are lawful (trait Key in proof/00_prelude.vrs) and comparisons do not panic; the order is embedded in the reals (every order of the keys that occur in a finite history can be)",
 "Augmentation::from_leaf and from_inner are functions of their arguments; Clone of keys, values and augmentations gives an equal object",
 "MaybeUninit is the enum Uninit | Init(T); areas of slot arrays (get_unchecked), slice_assume_init, uninit_array, alloc_uninit_box, dealloc_only, take_out, drop_of, forgotten: external bodies of the prelude",
 "the standard library: Vec, Option, Box, mem::replace, mem::take, slice::binary_search_by_key, sort, collect (contracts in proof/00_prelude.vrs, 77_bulk.vrs, 85_set.vrs)",
 "AtomicUsize: a load may return any value",
]
ASSUME = ["machine integers are exact (Verus checks overflow of every arithmetic operation, except the statistics counters, which wrap)",
          "the number of entries stays below usize::MAX (that the height then stays below MAX_DEPTH = 15 is proved, proof/52_height.vrs)",
          "allocation never fails; panics and unwinding are not modelled"]
P = {}
def p(pid, level, bounded, note, explanation="", trusted=(), assumptions=(), seconds=20, theorems=()):
    P[pid] = dict(level=level, bounded=bounded, note=note, explanation=explanation, trusted=list(trusted),
                  assumptions=list(assumptions), seconds=seconds, kani=pid in KANI, theorems=list(theorems))
exec(open("claims_text.py").read())
claims = dict(P)
claims["_trusted"] = TRUSTED
claims["_assumptions"] = ASSUME
json.dump(claims, open("claims.json", "w"), indent=1)
man = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": "contract-based deductive verification (Verus contracts on functions extracted from /repo on every run; Kani for the unsafe slice operations)",
   "level": v["level"], "level_note": v["note"], **({"theorems": v["theorems"]} if v["theorems"] else {})} for k, v in P.items()],
 "not_applicable": NA,
 "notes": "See DESIGN.md. No hooks: nothing in /repo is guarded; the fix commits are listed in known_findings.txt.",
}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
