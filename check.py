#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on /repo's current working tree:
  1. extracts the functions under contract into Verus units and discharges every obligation
     (plus a canary run in which every contract must fail `assert(false)`: vacuity guard);
  2. runs the executable form of the contracts against the compiled crate: it supplies a failing
     input for a failed obligation, and is the (bounded) stand-in for functions out of reach.
See DESIGN.md for the policy that combines the two.
"""
import json, os, re, subprocess, sys, time, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
sys.path.insert(0, V)
from checks import CHECKS

VERIF_FAIL = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic (under|over)flow|possible division by zero|possible bit shift|decreases not satisfied|"
    r"loop invariant|unreachable|might not be allowed at this call|type invariant|assert_by|cannot show|"
    r"unable to prove|requires not satisfied|index out of bounds|could not prove termination|possible overflow|"
    r"constructed value may fail")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|solver")


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.pop("CARGO_TARGET_DIR", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), "timeout after %ss" % timeout


def build_extractor():
    t = os.path.join(BUILD, "extract")
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--target-dir", t], cwd=os.path.join(V, "extract"),
                  env={"RUSTFLAGS": "--cap-lints allow"})
    if rc != 0:
        return None, e[-2000:]
    return os.path.join(t, "release", "extract"), ""


def build_harness():
    t = os.path.join(BUILD, "harness")
    rc, o, e = sh(["cargo", "build", "--offline", "--target-dir", t], cwd=os.path.join(V, "harness"),
                  env={"RUSTFLAGS": "--cfg tracing_unstable --cfg coerce_verif --cap-lints allow"})
    if rc != 0:
        return None, e[-4000:]
    return os.path.join(t, "debug", "coerce-contracts"), ""


def run_verus(path, rlimit):
    """-> dict(kind: ok|fail|unusable, errors: [...], functions: {...}, smt_ms, note)"""
    rc, o, e = sh(["verus", path, "--triggers-mode", "silent", "--multiple-errors", "4", "--rlimit", str(rlimit),
                   "--output-json", "--time-expanded", "--error-format=json"], timeout=600)
    res = {"kind": "unusable", "errors": [], "functions": {}, "smt_ms": 0, "note": "", "verified": 0}
    diags = []
    for line in e.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            name = f["function"].split("::", 1)[1]
            d = res["functions"].setdefault(name, {"success": True, "ms": 0.0, "mode": f.get("mode:", "")})
            d["success"] = d["success"] and f.get("success", False)
            d["ms"] += f.get("time-micros", 0) / 1000.0
    res["smt_ms"] = round(sum(f["ms"] for f in res["functions"].values()), 1)
    res["verified"] = vr.get("verified", 0)
    hard = []
    for d in diags:
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to") or msg.startswith("function body check"):
            continue
        # the line inside the function under proof (the last primary span usually is the exit point)
        lines = [s["line_start"] for s in d.get("spans", [])]
        texts = [" ".join(t["text"].strip() for t in s.get("text", []))[:300] for s in d.get("spans", [])]
        ent = {"message": msg, "lines": lines, "text": texts, "rendered": (d.get("rendered") or "")[:3000]}
        if RLIMIT.search(msg):
            ent["class"] = "rlimit"
            res["errors"].append(ent)
        elif VERIF_FAIL.search(msg):
            ent["class"] = "obligation"
            res["errors"].append(ent)
        else:
            hard.append(msg)
    if "verified" not in vr or vr.get("encountered-vir-error") or hard:
        res["kind"] = "unusable"
        res["note"] = ("; ".join(hard) or e[-500:] or "verus gave no result (exit %d)" % rc)[:1500]
    elif res["errors"] or vr.get("errors", 0):
        res["kind"] = "fail"
    else:
        res["kind"] = "ok"
    return res


def scan_trusted(text):
    """Mechanical scan of the generated unit for everything assumed."""
    out, prev = [], ""
    lines = text.splitlines()
    for i, l in enumerate(lines):
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]\(", l)
        if m:
            out.append("assumed std contract: " + m.group(1))
        if "external_body" in l:
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[k])
                if m:
                    out.append("external_body %s %s" % (m.group(1), m.group(2)))
                    break
        if re.search(r"\b(assume|admit)\s*\(", l):
            out.append("assume/admit: " + l.strip()[:120])
        m = re.search(r"\baxiom fn (\w+)", l)
        if m:
            out.append("axiom " + m.group(1))
    return sorted(set(out))


def unit(extractor, name, workdir, rlimit, canary=True):
    tpl = os.path.join(V, "specs", name + ".rs")
    out = os.path.join(workdir, name + "_unit.rs")
    can = os.path.join(workdir, name + "_canary.rs")
    rc, o, e = sh([extractor, REPO, tpl, out])
    if rc != 0:
        try:
            msg = json.loads(o.strip().splitlines()[-1]).get("error", o)
        except Exception:
            msg = (o + e)[-800:]
        return {"unit": name, "kind": "unusable", "note": "extraction: " + msg, "errors": [], "functions": {}, "smt_ms": 0,
                "meta": [], "canary": None, "trusted": [], "verified": 0}
    meta = json.loads(o.strip().splitlines()[-1])
    r = run_verus(out, rlimit)
    r["unit"] = name
    r["meta"] = meta["functions"]
    r["types"] = meta["types"]
    r["path"] = out
    r["trusted"] = scan_trusted(open(out).read())
    # attribute each error to the function whose text it lies in (call-site errors: the caller)
    for er in r["errors"]:
        er["fn"] = None
        for f in r["meta"]:
            if any(f["out_start"] <= l <= f["out_end"] for l in er["lines"]):
                er["fn"] = f["selector"]
                er["src"] = "%s:%d-%d" % (f["file"], f["line"], f["end_line"])
        if er["fn"] is None:
            er["fn"] = "(lemma) line %s" % er["lines"][:1]
    r["canary"] = None
    if canary and r["kind"] != "unusable":
        rc, o, e = sh([extractor, REPO, tpl, can, "--canary"])
        if rc == 0:
            cm = json.loads(o.strip().splitlines()[-1])["functions"]
            c = run_verus(can, rlimit)
            if c["kind"] != "unusable":
                hit = set()
                for er in c["errors"]:
                    for f in cm:
                        if any(f["out_start"] <= l <= f["out_end"] for l in er["lines"]) and \
                                ("assertion failed" in er["message"] or er["class"] == "rlimit"):
                            hit.add(f["selector"])
                want = {f["selector"] for f in cm if f["canary"] != "none"}
                r["canary"] = {"expected": len(want), "failed_as_required": len(want & hit), "vacuous": sorted(want - hit)}
            else:
                r["canary"] = {"unusable": c["note"]}
    return r


def known_findings(pid):
    p = os.path.join(V, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = CHECKS[pid]
    work = os.path.join(BUILD, "run", pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    rlimit = 30 if tier == "quick" else 120

    results, hres = [], []
    hstate = {}

    def harness():
        if not cfg.get("suites"):
            return
        b, err = build_harness()
        if not b:
            hstate["error"] = err
            return
        def one(s):
            budget = 240 if tier == "quick" else 900
            rc, o, e = sh([b, s, "--seed", str(seed), "--tier", tier, "--budget", str(budget)], timeout=budget + 200)
            try:
                d = json.loads(o.strip().splitlines()[-1])
            except Exception:
                d = {"suite": s, "error": "exit %d: %s" % (rc, (e or o)[-800:])}
            d["cmd"] = "%s %s --seed %d --tier %s" % (b, s, seed, tier)
            return d
        with ThreadPoolExecutor(4) as ex:
            hres.extend(ex.map(one, cfg["suites"]))

    th = threading.Thread(target=harness)
    th.start()
    if cfg.get("units"):
        ex, err = build_extractor()
        if ex:
            with ThreadPoolExecutor(3) as pool:
                futs = [pool.submit(unit, ex, u, work, rlimit) for u in cfg["units"]]
                results = [f.result() for f in futs]
        else:
            results = [{"unit": u, "kind": "unusable", "note": "extractor does not build: " + err, "errors": [], "functions": {},
                        "smt_ms": 0, "meta": [], "canary": None, "trusted": [], "verified": 0} for u in cfg["units"]]
    th.join()

    # ---- combine -------------------------------------------------------------------------
    wanted = cfg.get("functions")          # selectors this property depends on; None: all of the unit
    def relevant(fn):
        return wanted is None or fn.startswith("(lemma)") or any(fn == w or fn.endswith("::" + w) for w in wanted)
    failed, undecided, unusable, vacuous = [], [], [], []
    for r in results:
        if r["kind"] == "unusable":
            unusable.append("%s: %s" % (r["unit"], r["note"]))
            continue
        for er in r["errors"]:
            if not relevant(er["fn"]):
                continue
            (failed if er["class"] == "obligation" else undecided).append((r, er))
        c = r["canary"]
        if c and c.get("vacuous"):
            vacuous += ["%s:%s" % (r["unit"], v) for v in c["vacuous"] if relevant(v)]
    # a function with an rlimit error is undecided, not violated
    rl = {er["fn"] for _, er in undecided}
    failed = [(r, er) for r, er in failed if er["fn"] not in rl]

    hv = []
    herr = []
    for d in hres:
        if "error" in d:
            herr.append("%s: %s" % (d["suite"], d["error"]))
            continue
        for v in d["violations"]:
            if cfg.get("clauses") and not any(v["clause"].startswith(c) for c in cfg["clauses"]):
                continue
            hv.append((d, v))
    if hstate.get("error"):
        herr.append("harness build: " + hstate["error"])

    known = known_findings(pid)
    known_hit, new_hv = [], []
    for d, v in hv:
        k = next((k for k in known if k.get("suite") == d["suite"] and k.get("clause") == v["clause"]
                  and re.fullmatch(k.get("input", ""), v["input"])), None)
        (known_hit if k else new_hv).append((d, v))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    contract_fns = [f for r in results for f in r["meta"] if relevant(f["selector"])]
    proved_fns = []
    obligations = discharged = 0
    for r in results:
        if r["kind"] == "unusable":
            continue
        bad = {er["fn"] for er in r["errors"]}
        for f in r["meta"]:
            if relevant(f["selector"]):
                if f["selector"] not in bad:
                    proved_fns.append(f["selector"])
        for n, f in r["functions"].items():
            obligations += 1
            discharged += 1 if f["success"] else 0
    bounded = bool(cfg.get("suites"))
    decided_by_proof = bool(cfg.get("units")) and not unusable and not failed and not undecided and not vacuous
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "proof" if decided_by_proof and cfg.get("level", "proof") == "proof" else "other",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus 0.2026.09.13 (Z3 back end) on units extracted from /repo: %s" % ", ".join(cfg.get("units", [])),
            "explanation": ("every obligation of the functions under contract discharged on this run" if decided_by_proof else
                            "proof layer not decisive on this run (%s); the bounded executable contracts below decided" %
                            ("; ".join(unusable + ["undecided: " + er["fn"] for _, er in undecided] + ["vacuous: " + v for v in vacuous])
                             or ("; ".join("failed: " + er["fn"] for _, er in failed)) or "no unit")),
            "functions_under_contract": ["%s (%s:%d-%d)%s" % (f["selector"], f["file"], f["line"], f["end_line"],
                                         " inlined: " + ",".join(f["inlined"]) if f["inlined"] else "") for f in contract_fns],
            "functions_proved": proved_fns,
            "solver_ms": round(sum(r["smt_ms"] for r in results), 1),
            "back_end": "Z3 via Verus",
            "canary": {r["unit"]: r["canary"] for r in results},
            "trusted_base": sorted({t for r in results for t in r["trusted"]}) + cfg.get("trusted", []),
            "bounded_standin": {
                "label": "bounded: executable contracts run against the compiled crate; never counted as proved",
                "suites": [{k: d.get(k) for k in ("suite", "evaluations", "distinct", "clauses", "samples", "flaky", "truncated", "error")} for d in hres],
            },
            "evaluations": sum(d.get("evaluations", 0) for d in hres),
            "distinct_nontrivial": sum(d.get("distinct", 0) for d in hres),
            "rule": "a case is a concrete operation sequence / input, distinct by its printed form; see DESIGN.md per suite",
            "samples": [s for d in hres for s in d.get("samples", [])][:8],
        },
        "assumptions": cfg.get("assumptions", []) + (["bounded part: " + cfg["bounded"]] if cfg.get("bounded") else []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 0,
    }
    code = 0
    lines = []
    if new_hv or failed:
        rp = os.path.join(V, "evidence", "replay", pid + ".json")
        doc = {
            "property": pid,
            "failed_obligations": [{"unit": r["unit"], "function": er["fn"], "source": er.get("src"), "obligation": er["message"],
                                    "clause": er["text"], "verifier_output": er["rendered"]} for r, er in failed],
            "failing_inputs": [{"suite": d["suite"], "clause": v["clause"], "input": v["input"], "what": v["message"],
                                "rerun": d["cmd"] + " --only '" + v["input"] + "'"} for d, v in new_hv],
        }
        json.dump(doc, open(rp, "w"), indent=1)
        ev["violations"] = len(new_hv) + len(failed)
        tail = "" if new_hv else " no-failing-input-found"
        for r, er in failed[:6]:
            print("failed obligation: unit=%s function=%s (%s): %s" % (r["unit"], er["fn"], er.get("src"), er["message"]))
        for d, v in new_hv[:6]:
            print("failing input: suite=%s clause=%s input=%s: %s" % (d["suite"], v["clause"], v["input"], v["message"]))
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rp, tail))
        code = 1
    elif (unusable or undecided or vacuous) and (herr or not hres):
        print("no answer: proof layer: %s; harness: %s" % (unusable or vacuous or [er["fn"] for _, er in undecided], herr))
        code = 2
    elif herr and not decided_by_proof:
        print("no answer: harness: %s" % herr)
        code = 2
    else:
        for u in unusable:
            print("note: proof layer not applicable to this tree (%s); bounded contracts decided" % u)
        for _, er in undecided:
            print("note: undecided (rlimit): %s; bounded contracts decided" % er["fn"])
        for x in vacuous:
            print("note: vacuous contract: %s" % x)
        for h in herr:
            print("note: bounded stand-in did not run (%s)" % h[:300])
        print("property %s held: %d/%d functions under contract proved, %d obligations discharged, %d bounded evaluations" % (
            pid, len(proved_fns), len(contract_fns), discharged, ev["coverage"]["evaluations"]))
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    sys.exit(code)


if __name__ == "__main__":
    main()
