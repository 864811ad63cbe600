#!/usr/bin/env python3
"""check.py PROP [quick|thorough]

Decides one property of sweep-bptree: extracts the functions under contract from /repo's current
source, has Verus (z3) discharge their obligations, has Kani discharge the contracts of the unsafe
slice operations, and runs the real crate on generated histories (a) to find a failing input for a
failed obligation, (b) as the labelled bounded stand-in for code outside the verifier's reach.
"""
import glob, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
WORK = f"{V}/work/{PROP}"
TARGET = f"{V}/target"
NOTES = []          # what went wrong on the way (never an alarm by itself)
os.makedirs(WORK, exist_ok=True)
os.makedirs(f"{V}/evidence", exist_ok=True)


def left(total=860):
    return max(1, total - (time.time() - T0))


def note(s):
    NOTES.append(s)
    print("NOTE", s, flush=True)


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo_build(crate):
    env = dict(os.environ, CARGO_TARGET_DIR=f"{TARGET}/{crate}", RUSTFLAGS="")
    cmd = ["cargo", "build", "--release", "--offline"]
    if REPO != "/repo":     # development only: the crate under test lies elsewhere
        cmd += ["--config", f'paths=["{REPO}"]']
    rc, o, e = run(cmd, min(600, left()), cwd=f"{V}/{crate}", env=env)
    if rc != 0:
        note(f"building {crate} failed: " + e[-2000:])
        return None
    return f"{TARGET}/{crate}/release/{crate}"


# ------------------------------------------------------------------------------------------ proof

def consts():
    """Values of the constants of /repo's consts.rs, computed by rustc from the real file."""
    src = f"{REPO}/src/tree/consts.rs"
    names = []
    try:
        names = re.findall(r"const\s+([A-Z_0-9]+)\s*:\s*usize", open(src).read())
        d = f"{WORK}/consts"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/m.rs", "w").write(
            f'#![allow(dead_code)]\n#[path = "{src}"]\nmod consts;\nfn main() {{\n' +
            "".join(f'println!("{n}={{}}", consts::{n});\n' for n in names) + "}\n")
        rc, o, e = run(["rustc", "--edition", "2021", "-o", f"{d}/m", f"{d}/m.rs"], 60)
        if rc == 0:
            rc, o, e = run([f"{d}/m"], 10)
            return dict(l.split("=") for l in o.split())
        note("consts.rs does not compile alone: " + e[-300:])
    except OSError as ex:
        note(f"consts: {ex}")
    return {}


def verus(out, extra, rlimit="20"):
    t = time.time()
    rc, o, e = run(["verus", out, "--output-json", "--time-expanded", "--error-format=json",
                    "--multiple-errors", "8", "--num-threads", "8", "--rlimit", rlimit] + extra, left(700), cwd=WORK)
    try:
        js = json.loads(o[o.index("{"):])
    except ValueError:
        js = {}
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    return rc, js, diags, time.time() - t, e


def spans(d):
    out = []
    for s in d.get("spans", []):
        if os.path.basename(s["file_name"]) == "out.rs":
            out.append((s["line_start"], s["line_end"], s["is_primary"], (s.get("text") or [{"text": ""}])[0]["text"].strip(), s.get("label") or ""))
    for c in d.get("children", []):
        out += spans(c)
    return out


class Proof:
    ok = False              # the verifier gave a verdict
    failed = {}             # function path -> list of messages with labels
    undecided = {}          # function path -> why
    functions = []
    breakdown = {}
    n_verified = 0
    smt_ms = 0
    rounds = 0
    text = ""


def texts(m, lines):
    """A hash per function under contract of the text that the verifier is given."""
    import hashlib
    return {f["path"]: hashlib.sha1("\n".join(lines[f["line0"] - 1:f["line1"]]).encode()).hexdigest()[:12] for f in m["functions"]}


try:
    BASE = json.load(open(f"{V}/proof/base.json"))
except OSError:
    BASE = {}


def diagnose(P, diags):
    """Attributes the verifier's errors to functions, with the labels of the clauses that fail."""
    labels = {l: set(s.split()) for l, s in P.labels}
    for d in diags:
        sp = spans(d)
        if not sp:
            continue
        prim = [s for s in sp if s[2]] or sp
        fn = None
        for f in P.functions:
            if any(f["line0"] <= s[0] <= f["line1"] for s in prim):
                fn = f
                break
        if fn is None and "postcondition" in d["message"]:      # the clause of a trait, failed by the function that implements it
            fn = next((f for f in P.functions if any(f["line0"] <= s[0] <= f["line1"] for s in sp)), None)
        name = fn["path"] if fn else None
        if name is None:        # a lemma or a specification in the raw text
            txt = open(f"{WORK}/out.rs").read().split("\n")
            for ln in range(prim[0][0] - 1, -1, -1):
                mm = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:open |closed )?(?:broadcast )?(?:proof|spec|uninterp spec)?\s*fn (\w+)", txt[ln])
                if mm:
                    name = "lemma " + mm.group(1)
                    break
            name = name or "raw"
        if "esource limit" in d["message"] or "rlimit" in d["message"]:
            P.undecided[name] = "solver resource limit"
            continue
        lab = set()
        for s in sp:
            for ln in range(s[0], s[1] + 1):
                if s[1] - s[0] < 60 and "at the end of the function body" not in s[4] and (s[2] or "failed" in s[4] or "requires" in d["message"] or "precondition" in d["message"]):
                    lab |= labels.get(ln, set())
        P.failed.setdefault(name, []).append({
            "message": d["message"], "labels": sorted(lab),
            "where": [{"line": s[0], "text": s[3], "label": s[4]} for s in sp[:4]],
            "rendered": d.get("rendered", "")})


def prove(extract, cs, vacuity=False):
    P = Proof()
    P.failed, P.undecided, P.breakdown = {}, {}, {}
    files = sorted(glob.glob(f"{V}/proof/*.vrs"))
    stubs, omits, ops = {}, [], []
    for rnd in range(14):
        P.rounds = rnd + 1
        cmd = [extract, f"{REPO}/src"] + files + ["--out", f"{WORK}/out.rs", "--map", f"{WORK}/map.json"]
        for n, v in cs.items():
            cmd += ["--const", f"{n}={v}"]
        for n, r in stubs.items():
            cmd += ["--stub", f"{n}={r}"]
        for n in omits:
            cmd += ["--omit", n]
        for n in ops:
            cmd += ["--ops", n]
        if vacuity:
            cmd.append("--vacuity")
        rc, o, e = run(cmd, 60)
        if rc != 0:
            note("extraction failed: " + (e or o)[-600:])
            return P
        m = json.load(open(f"{WORK}/map.json"))
        rc, js, diags, secs, err = verus(f"{WORK}/out.rs", [])
        P.functions, P.labels = m["functions"], m["labels"]
        P.problems = m["problems"]
        P.wall = secs
        vr = js.get("verification-results", {})
        if rc is None:
            note("verus ran out of time")
            return P
        # a verdict: the whole text was accepted by the compiler (its errors carry a code) and sent to the solver
        if vr.get("verified", 0) > 0 and not vr.get("encountered-vir-error") and "smt" in js.get("times-ms", {}) \
                and not any(d.get("code") for d in diags):
            break
        # the extracted text does not compile: the functions that hold the errors are beyond reach
        hit, fresh, before = False, set(), set(stubs)
        for d in diags:
            for (a, b, prim, _t, _l) in spans(d):
                if not prim:
                    continue
                for f in m["functions"]:
                    if f["line0"] <= a <= f["line1"]:
                        if f["path"] in fresh:
                            continue
                        if f["path"] not in ops and ((d.get("code") or {}).get("code") == "E0369" or "Ordering" in json.dumps(d)):
                            # operators on keys: give them their meaning as calls
                            ops.append(f["path"])
                            fresh.add(f["path"])
                            hit = True
                            continue
                        if f["path"] in before or f["status"] == "trusted":
                            if f["path"] not in omits:
                                omits.append(f["path"])
                                hit = True
                        else:
                            stubs[f["path"]] = "not in the verifier's subset: " + d["message"][:160]
                            hit = True
        if not hit and not any(spans(d) for d in diags):
            # the verifier stopped without saying where: whatever is not as on the tree the proof was written for
            for n, h in texts(m, open(f"{WORK}/out.rs").read().split("\n")).items():
                if BASE.get(n) != h and n not in stubs and n not in omits:
                    stubs[n] = "the verifier stopped without a verdict on this text"
                    hit = True
        if not hit:
            note("the extracted text does not compile: " + "; ".join(d["message"][:200] for d in diags[:4]) + err[-300:] * (not diags))
            return P
    else:
        note("the extracted text does not compile after stubbing")
        return P
    P.ok = True
    P.stubs = stubs
    for n, r in stubs.items():
        P.undecided[n] = r
    for n in omits:
        P.undecided[n] = "signature not in the verifier's subset"
    for p in P.problems:
        if "function" in p["kind"] or "anchor" in p["kind"]:
            P.undecided.setdefault(p["path"], f"{p['kind']} {p.get('what', '')}")
    smt = js["times-ms"]["smt"]
    for mod in smt.get("smt-run-module-times", []):
        for f in mod.get("function-breakdown", []):
            n = f["function"].split("::", 1)[1]
            b = P.breakdown.setdefault(n, {"ms": 0, "rlimit": 0, "ok": True, "mode": f.get("mode:", "")})
            b["ms"] += f["time"]
            b["rlimit"] += f["rlimit"]
            b["ok"] &= f["success"]
    P.smt_ms = smt.get("smt-run", 0)
    P.n_verified = vr.get("verified", 0)
    P.n_errors = vr.get("errors", 0)
    diagnose(P, diags)
    # a query that failed without a located message is undecided
    for n, b in P.breakdown.items():
        if not b["ok"] and n not in P.failed and ("lemma " + n.split("::")[-1]) not in P.failed and n not in P.undecided:
            P.undecided[n] = "the solver gave no answer"
    return P


def again(P, seed):
    """The same text with another seed and more resources: the functions whose obligations still fail.
    One successful run proves a function; None: no verdict."""
    rc, js, diags, secs, err = verus(f"{WORK}/out.rs", ["--smt-option", f"smt.random_seed={seed}"], "60")
    vr = js.get("verification-results", {})
    if rc is None or vr.get("verified", 0) == 0 or vr.get("encountered-vir-error") or any(d.get("code") for d in diags):
        return None
    Q = Proof()
    Q.functions, Q.labels, Q.failed, Q.undecided = P.functions, P.labels, {}, {}
    diagnose(Q, diags)
    return set(Q.failed) | set(Q.undecided)


def relevant(P):
    """Functions whose contracts serve PROP, with the contracted functions they rest on."""
    by = {f["path"]: f for f in P.functions}
    names = {}
    for p in by:
        names.setdefault(p.split("::")[-1], []).append(p)
    def closure(todo, seen):
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for c in by[p].get("calls", []) or []:
                for q in names.get(c.split("::")[-1], []):
                    todo.append(q)
        return seen
    own = {p for p, f in by.items() if PROP in f["props"]}
    core = closure(list(own), set())
    # functions with a clause that is labelled for PROP serve it, too
    lab = [l for l, s in P.labels if PROP in s.split()]
    seen = closure([p for p, f in by.items() if any(f["line0"] <= l <= f["line1"] for l in lab)], set(core))
    return own, core, seen


# ------------------------------------------------------------------------------------------ bounded

def search(replay, seconds, cap=0):
    out = f"{WORK}/witness.txt"
    if os.path.exists(out):
        os.unlink(out)
    cmd = [replay, "search", PROP, str(SEED), str(int(seconds)), out, "8"] + ([str(cap)] if cap else [])
    rc, o, e = run(cmd, seconds + 90, cwd=WORK)
    st, found = {}, None
    for l in o.splitlines():
        if l.startswith("STATS "):
            st = json.loads(l[6:])
        elif l.startswith("FOUND "):
            found = l[6:]
    if rc == 1 and found is not None and os.path.exists(out):
        return st, (found, out)
    if rc not in (0, 1):
        note(f"replay search ended with {rc}: " + (o + e)[-400:])
    return st, None


def kani(crate):
    env = dict(os.environ)
    rc, o, e = run(["cargo", "kani", "--target-dir", f"{TARGET}/{crate}", "--output-format", "terse"],
                   min(420, left()), cwd=f"{V}/{crate}", env=env)
    open(f"{WORK}/{crate}.log", "w").write(o + e)
    res = {}
    cur = None
    for l in o.splitlines():
        m = re.match(r"Checking harness (\S+?)\.\.\.", l)
        if m:
            cur = m.group(1).split("::")[-1]
        if l.startswith("VERIFICATION:- ") and cur:
            res[cur] = l.split("- ")[1].strip()
    return rc, res, o


# ------------------------------------------------------------------------------------------ main

def main():
    quick = TIER != "thorough"
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        fe, fr = ex.submit(cargo_build, "extract"), ex.submit(cargo_build, "replay")
        extract, replay = fe.result(), fr.result()
    info = json.load(open(f"{V}/claims.json"))[PROP]
    P = Proof()
    if extract:
        cs = consts()
        P = prove(extract, cs)
    kres = {}
    if info.get("kani") and shutil.which("cargo-kani"):
        rc, kres, klog = kani("kani")
        if not kres:
            note("kani gave no verdict on the slice operations: " + klog[-300:])
    own, core, seen = relevant(P) if P.ok else (set(), set(), set())
    bad = []
    # where an anchor of the proof text is gone from the changed function, a failure may be due to that alone
    lost = {p["path"] for p in getattr(P, "problems", []) if "anchor" in p["kind"]}
    # likewise where a function has other loops than those the invariants are written for
    shapes = json.load(open(f"{V}/proof/loops.json"))
    lost |= {f["path"] for f in P.functions if f.get("loops") is not None and f["loops"] != shapes.get(f["path"], []) and f["path"] in P.failed}
    for n, fails in P.failed.items():
        if n in lost:
            P.undecided[n] = (P.undecided.get(n, "") + "; not discharged: " + "; ".join(f["message"] for f in fails[:3])).strip("; ")
            continue
        for f in fails:
            if "aux" in f["labels"]:
                # says something about an object that is about to go: callers may rely on it, no property does
                P.undecided[n] = (P.undecided.get(n, "") + "; not discharged: auxiliary clause").strip("; ")
            elif f["labels"]:
                # `+`: also a failure of the properties of the function
                if PROP in f["labels"] or ("+" in f["labels"] and n in own):
                    bad.append((n, f))
            elif n in own or (n in core and not next(x for x in P.functions if x["path"] == n)["props"]):
                bad.append((n, f))
            elif n.startswith("lemma ") or n == "raw":
                P.undecided[n] = f["message"]
    und = {n: r for n, r in P.undecided.items() if n in seen or n.startswith("lemma ") or n == "raw"}
    for n, r in und.items():
        note(f"undecided: {n}: {r}")
    kbad = [h for h, r in kres.items() if r != "SUCCESSFUL"]
    failing = bool(bad or kbad)
    for n, f in bad:
        print(f"FAILED OBLIGATION {n}: {f['message']}: " + " | ".join(w["text"][:140] for w in f["where"][:3]), flush=True)
    for h in kbad:
        print(f"FAILED OBLIGATION slice_utils {h} (kani)", flush=True)
    # the real code on generated histories: a failing input for a failed obligation, and the bounded
    # stand-in for what the proof does not reach
    secs = info.get("seconds", 25) if quick else 300
    if failing or und or not P.ok:
        secs = max(secs, 120 if quick else 300)
    secs = int(min(secs, left(800)))
    stats, wit = ({}, None)
    if replay:
        stats, wit = search(replay, secs)
    # no failing input: an obligation counts as failed only if the solver fails on it with other seeds, too
    for seed in (11, 23):
        if bad and not wit and left(800) > 200:
            still = again(P, seed)
            if still is not None:
                for n in {n for n, _ in bad} - still:
                    note(f"{n}: discharged with solver seed {seed} only")
                bad = [(n, f) for n, f in bad if n in still]
    failing = bool(bad or kbad)
    vac = None
    if not quick and P.ok and not failing and not wit:
        Q = prove(extract, cs, vacuity=True)
        if Q.ok:
            ver = [f["path"] for f in Q.functions if f["status"] == "verified"]
            vac = {"functions": len(ver), "vacuous": [n for n in ver if n not in Q.failed]}
        prove(extract, cs)
    violations = 0
    if wit:
        violations = 1
        print(f"found on the real code: {wit[0]}")
        with open(wit[1], "a") as fh:
            for n, f in bad:
                fh.write(f"# failed obligation: {n}: {f['message']}\n")
        print(f"VIOLATION property={PROP} replay={wit[1]}")
    elif failing:
        violations = 1
        path = f"{WORK}/failed_obligation.txt"
        with open(path, "w") as fh:
            fh.write(f"property {PROP}: obligations that the verifier no longer discharges\n\n")
            for n, f in bad:
                fh.write(f"function {n}\n{f['rendered'] or f['message']}\n\n")
            for h in kbad:
                fh.write(f"kani harness {h} on src/tree/slice_utils.rs\n" + open(f"{WORK}/kani.log").read()[-4000:])
        print(f"VIOLATION property={PROP} replay={path} no-failing-input-found")
    evidence(P, own, seen, bad, und, kres, stats, info, secs, vac, violations)
    sys.exit(1 if violations else 0)


def evidence(P, own, seen, bad, und, kres, stats, info, secs, vac, violations):
    fs = {f["path"]: f for f in P.functions}
    badn = {n for n, _ in bad}
    mine = sorted(n for n in seen if n in fs)
    verified = [n for n in mine if fs[n]["status"] == "verified" and n not in P.undecided and n not in P.failed]
    trusted = [n for n in mine if fs[n]["status"] == "trusted"]
    lemmas = [n for n, b in P.breakdown.items() if b["mode"] == "proof"]
    obl = len(mine) - len(trusted) + len(lemmas) + len(kres)
    dis = len(verified) + sum(1 for n in lemmas if P.breakdown[n]["ok"]) + sum(1 for r in kres.values() if r == "SUCCESSFUL")
    clauses = {}
    try:
        txt = open(f"{WORK}/out.rs").read().split("\n")
    except OSError:
        txt = []
    def mentions(n):
        f = fs[n]
        body = "\n".join(txt[f["line0"] - 1:f["line1"]])
        return {"requires": body.count("requires"), "loop_invariants": body.count("invariant")}
    ms = sum(P.breakdown[n]["ms"] for n in P.breakdown if n in seen or n in lemmas)
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": f"verus {WORK}/out.rs --output-json --time-expanded --multiple-errors 8 --rlimit 20 (z3 back end); out.rs is extracted from /repo/src on this run",
        "trusted_base": sorted(set(info.get("trusted", []) + json.load(open(f"{V}/claims.json"))["_trusted"] +
                               [f"contract of {n} assumed: {fs[n]['reason']}" for n in trusted])),
        "functions_under_contract": [{"function": n, "source": f"{fs[n].get('file')}:{fs[n].get('src_line')}-{fs[n].get('src_end')}",
                                      "status": fs[n]["status"], "inlined": fs[n].get("inlined"), "states_property": n in own,
                                      "smt_ms": P.breakdown.get(n, {}).get("ms"), "rlimit": P.breakdown.get(n, {}).get("rlimit"),
                                      "back_end": "kani/cbmc" if n in ("slice_insert", "slice_remove", "move_to_slice") else "verus/z3"} for n in mine],
        "lemmas": len(lemmas), "solver_ms": ms, "verus_queries_verified": P.n_verified,
        "undecided": und, "failed": sorted(badn),
        "kani": kres,
        "bounded_stand_in": {"label": "bounded, never counted as proved", "covers": info.get("bounded", ""), "seconds": secs, "stats": stats,
                             "rule": "random histories of operations on the real crate, checked step by step against a reference map; see replay/"},
        "notes": NOTES,
    }
    if info["level"] != "proof":
        cov["explanation"] = info["explanation"]
    if isinstance(stats, dict):
        for k in ("evaluations", "distinct_nontrivial"):
            if k in stats:
                cov[k] = stats[k]
    if vac is not None:
        cov["vacuity"] = vac
    ev = {"property": PROP, "tier": "quick" if TIER != "thorough" else "thorough", "seed": SEED, "level": info["level"],
          "coverage": cov, "assumptions": info.get("assumptions", []) + json.load(open(f"{V}/claims.json"))["_assumptions"],
          "wall_s": round(time.time() - T0, 1), "violations": violations}
    json.dump(ev, open(f"{V}/evidence/{PROP}.json", "w"), indent=1)
    print(f"{PROP}: {dis}/{obl} obligations discharged, {len(verified)} functions verified, bounded: {stats.get('evaluations', stats)}; {round(time.time() - T0, 1)} s")


if __name__ == "__main__":
    main()
