#!/usr/bin/env python3
"""gen_loops.py MAP OUT.rs: writes proof/loops.json, the kinds of the loops that each function's invariants are written
for, and proof/base.json, a hash per function of the extracted text (used only where the verifier stops without saying
where: what differs is then left out)."""
import hashlib, json, sys
m = json.load(open(sys.argv[1]))
json.dump({f["path"]: f["loops"] for f in m["functions"] if f.get("loops")}, open("proof/loops.json", "w"), indent=1)
lines = open(sys.argv[2]).read().split("\n")
json.dump({f["path"]: hashlib.sha1("\n".join(lines[f["line0"] - 1:f["line1"]]).encode()).hexdigest()[:12] for f in m["functions"]},
          open("proof/base.json", "w"), indent=0, sort_keys=True)
