#!/usr/bin/env python3
"""check.py <property> -- decide one property on /repo's current tree.

1. extract the functions under contract from /repo (mechanically, every run) and have Verus discharge
   every obligation of their contracts;
2. run the property's replay harness against the real crate (it supplies the failing input for a
   failed obligation, and stands in, bounded, for what the proof cannot see);
3. write evidence/<property>.json.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PLUSENDI_REPO", "/repo")
BUILD = os.environ.get("PLUSENDI_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from properties_map import PROPS, TRUSTED  # noqa: E402

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


RUNNING = set()


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    RUNNING.add(p)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), r.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)  # the group this call started
        except OSError:
            pass
        o, r = p.communicate()
        return -999, (o or b"").decode("utf8", "replace"), (r or b"").decode("utf8", "replace") + "\ntimeout"
    finally:
        RUNNING.discard(p)


# ------------------------------------------------------------------ proof

FAIL_KINDS = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
    "assertion failed", "assertion failure", "possible arithmetic underflow/overflow", "possible division by zero",
    "possible bit shift underflow/overflow", "decreases not satisfied", "could not prove termination",
    "unable to prove assertion", "recommendation", "assert_by_compute failed", "possible",
    "failed to simplify down to true", "loop invariant", "cannot show", "expression simplifies to false",
]
UNDECIDED_KINDS = ["Resource limit (rlimit) exceeded", "rlimit", "timeout", "timed out", "verifier does not yet support", "not supported", "not yet support"]


def build_extractor():
    env = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(BUILD, "extract"), "RUSTFLAGS": "-Awarnings"}
    rc, o, e = run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "extract"), env=env, timeout=600)
    if rc != 0:
        raise RuntimeError("extractor does not build: " + e[-2000:])
    return os.path.join(BUILD, "extract", "debug", "plusendi-extract")


def functions_of(path):
    """line ranges of extracted functions and of prelude/epilogue functions"""
    spans, cur, start = [], None, 0
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines, 1):
        m = re.match(r"// @FN (.*)$", l)
        if m:
            cur, start = m.group(1), i
        m = re.match(r"// @END (.*)$", l)
        if m and cur:
            spans.append((start, i, cur))
            cur = None
    return spans, lines


def lemma_name(lines, ln):
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub |open |closed |broadcast |uninterp |assume_specification)*(?:axiom |proof |spec |exec )?fn ([A-Za-z0-9_]+)", lines[i])
        if m:
            return m.group(1)
    return "?"


def verus(path, extra, timeout):
    t = time.time()
    cmd = ["verus", os.path.basename(path), "--crate-type=lib", "--output-json", "--time", "--error-format=json"] + extra
    rc, o, e = run(cmd, timeout=timeout, cwd=os.path.dirname(path))
    res = {"rc": rc, "cmd": " ".join(cmd), "wall": time.time() - t, "verified": 0, "errors": None, "failures": [], "undecided": [], "broken": []}
    try:
        j = json.loads(o)
        vr = j.get("verification-results", {})
        res["verified"] = vr.get("verified", 0) or 0
        res["errors"] = vr.get("errors")
        res["success"] = vr.get("success")
        tm = j.get("times-ms", {})
        res["smt_ms"] = (tm.get("smt", {}) or {}).get("total") if isinstance(tm.get("smt"), dict) else None
        res["verus_version"] = (j.get("verus", {}) or {}).get("version")
    except Exception:
        pass
    spans, lines = functions_of(path)
    for l in e.split("\n"):
        l = l.strip()
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        sp = d.get("spans", [])
        prim = [s for s in sp if s.get("is_primary")] or sp
        where = None
        obl_line = None
        for s in prim + sp:
            f = s.get("file_name", "")
            if not f.endswith(os.path.basename(path)):
                continue
            ln = s["line_start"]
            for (a, b, k) in spans:
                if a <= ln <= b:
                    where = k
                    break
            if where:
                break
        if where is None:
            for s in prim + sp:
                if s.get("file_name", "").endswith(os.path.basename(path)):
                    where = "lemma " + lemma_name(lines, s["line_start"])
                    break
        text = ""
        src = None
        for s in sp:
            if s.get("file_name", "").endswith(os.path.basename(path)):
                t_ = lines[s["line_start"] - 1].strip() if s["line_start"] <= len(lines) else ""
                m = re.search(r"/\*@L(\d+)\*/", t_)
                if m and not src:
                    src = int(m.group(1))
                if s.get("is_primary"):
                    text = t_[:300]
        rec = {"function": where or "?", "kind": msg, "obligation": text, "repo_line": src, "rendered": (d.get("rendered") or "")[:1500]}
        if any(k in msg for k in UNDECIDED_KINDS) and "postcondition" not in msg:
            res["undecided"].append(rec)
        elif any(msg.startswith(k) or k in msg for k in FAIL_KINDS) and d.get("code") is None:
            res["failures"].append(rec)
        else:
            res["broken"].append(rec)
    if rc == -999:
        res["undecided"].append({"function": "?", "kind": "verifier timeout", "obligation": "", "repo_line": None, "rendered": ""})
    elif rc != 0 and not (res["failures"] or res["undecided"] or res["broken"]):
        res["broken"].append({"function": "?", "kind": "verifier failed", "obligation": "", "repo_line": None, "rendered": e[-1500:]})
    return res


def prove_unit(unit, cone, extractor, out):
    """out: dict filled with status ok|failed|undecided|structural

    A spec may hold further forms of its loop annotations (lines `?N ..`). They are proof steps only: the
    contracts are the same in all of them, so the unit is proved if it is proved in any."""
    prove_form(unit, cone, extractor, out, "0")
    if out["status"] in ("ok", "undecided"):
        return
    spec = open(os.path.join(VERIF, "verus", unit + ".vspec")).read()
    forms = sorted(set("".join(re.findall(r"^\?(\d+) ", spec, re.M))) - {"0"})
    for f in forms:
        if time.time() - T0 > 500:
            return
        o2 = {}
        prove_form(unit, cone, extractor, o2, f)
        if o2["status"] == "ok":
            out.clear()
            out.update(o2, form=f)
            return


def prove_form(unit, cone, extractor, out, form):
    d = os.path.join(BUILD, "units", "%s-%d" % (PROP, os.getpid()))
    os.makedirs(d, exist_ok=True)
    rs = os.path.join(d, unit + ("" if form == "0" else "_" + form) + ".rs")
    spec = os.path.join(VERIF, "verus", unit + ".vspec")
    rc, o, e = run([extractor, REPO, spec, rs], timeout=400, env={"PLUSENDI_EXPAND_DIR": os.path.join(BUILD, "expand"), "PLUSENDI_FORM": form})
    out["unit"] = unit
    if rc != 0:
        out["status"] = "structural"
        out["why"] = e.strip()[-1500:]
        return
    text = open(rs).read()
    out["functions"] = [k for (_, _, k) in functions_of(rs)[0]]
    out["trusted"] = trusted_scan(text)
    # vacuity guard, alongside: with `assert(false)` as first statement, every function under contract must fail
    vac = {}
    ct = threading.Thread(target=lambda: vac.update(c=canary(rs, unit, out)), daemon=True)
    ct.start()
    r = verus(rs, UNIT_ARGS.get(unit, []), 700)
    if r["undecided"] and not r["broken"]:
        # one more try with a larger resource limit
        r2 = verus(rs, UNIT_ARGS.get(unit, []) + ["--rlimit", "60"], max(60, 800 - (time.time() - T0)))
        if not r2["undecided"]:
            r = r2
    out["result"] = r
    in_cone = lambda f: cone is None or f["function"] in cone or f["function"].startswith("lemma ") or f["function"] == "?"
    fails = [f for f in r["failures"] if in_cone(f)]
    und = [f for f in r["undecided"] if in_cone(f)]
    if r["broken"]:
        out["status"] = "structural"
        out["why"] = "; ".join("%s: %s" % (b["function"], b["kind"]) for b in r["broken"][:5])
    elif fails:
        out["status"] = "failed"
        out["fails"] = fails
    elif und:
        out["status"] = "undecided"
        out["why"] = "; ".join("%s: %s" % (b["function"], b["kind"]) for b in und[:5])
    elif r["verified"] <= 0:
        out["status"] = "structural"
        out["why"] = "no obligation was generated"
    else:
        out["status"] = "ok"
        ct.join()
        c = vac.get("c", ["canary did not run"])
        if c:
            out["status"] = "structural"
            out["why"] = "vacuous contract: " + ", ".join(c)


UNIT_ARGS = {}


def canary(rs, unit, out):
    lines = open(rs).read().split("\n")
    text = []
    infn = None
    keys = []
    done = True
    pending = False
    theorem = None
    for l in lines:
        # hide(..) must stay the first statement
        if pending and not re.match(r"^\s*((proof \{)? *hide\(|// @# |\}? *$)", l):
            text.append("assert(false); // canary")
            pending = False
        m = re.match(r"// @FN (.*)$", l)
        if m:
            infn, done = m.group(1), False
        # a small limit on these alone (a global one also cuts compute_only short): a contradiction is found at once
        if infn and "#[verifier::rlimit(" in l:
            l = re.sub(r"#\[verifier::rlimit\([^)]*\)\]", "", l)
        if infn and not done and re.match(r"^\s*/\*@L\d+\*/ ((pub|const|exec) )*fn ", l):
            text.append("#[verifier::rlimit(2)]")
        text.append(l)
        if infn and not done and re.match(r"^\s*(/\*@L\d+\*/ )?\{ *$", l) and "impl" not in l:
            pending = True
            keys.append(infn)
            done = True
        if l.startswith("// @END"):
            infn = None
        m = re.match(r"(?:pub )?fn (property_[a-z0-9_]+)", l)
        if m and infn is None:
            theorem = m.group(1)
        if theorem and l == "{":
            text.append("assert(false); // canary")
            keys.append("lemma " + theorem)
            theorem = None
    p = rs[:-3] + "_canary.rs"
    open(p, "w").write("\n".join(text))
    r = verus(p, UNIT_ARGS.get(unit, []) + ["--multiple-errors", "0"], 600)
    hit = set(f["function"] for f in r["failures"]) | set(f["function"] for f in r["undecided"])
    out["canary"] = {"functions": len(keys), "reachable": len([k for k in keys if k in hit])}
    if r["broken"]:
        return ["canary unit does not compile: %s" % r["broken"][0]["kind"][:200]]
    return [k for k in keys if k not in hit]


def trusted_scan(text):
    out = []
    # contracts imported from a unit that proves them (every unit a property needs is run by its check)
    text = re.sub(r"// @ASSUMED.*?// @END", "", text, flags=re.S)
    for m in re.finditer(r"assume_specification[^;{]*?\[\s*([^\]]+?)\s*\]", text):
        out.append("assumed specification of " + " ".join(m.group(1).split()))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:const )?(?:proof |exec )?(fn|struct)\s+([A-Za-z0-9_]+)", text):
        # what nothing mentions plays no part
        if m.group(1) == "struct" or len(re.findall(r"\b%s\b" % m.group(2), text)) > 1:
            out.append("trusted external_body %s %s" % (m.group(1), m.group(2)))
    for m in re.finditer(r"(?<![A-Za-z_])(assume|admit)\s*\(", text):
        out.append("%s() at offset %d" % (m.group(1), m.start()))
    for m in re.finditer(r"axiom fn ([A-Za-z0-9_]+)", text):
        out.append("axiom " + m.group(1))
    return sorted(set(out))


# ------------------------------------------------------------------ concrete

def build_harness(group):
    env = {
        "CARGO_NET_OFFLINE": "true", "PLUSENDI_VERIF_HOOKS": os.path.join(VERIF, "hooks", group),
        "RUSTFLAGS": "--cfg plusendi_verif -Awarnings", "CARGO_TARGET_DIR": os.path.join(BUILD, "harness-" + group),
    }
    src = os.path.join(VERIF, "harness")
    cmd = ["cargo", "build", "--offline", "-q", "--features", group]
    if REPO != "/repo":  # development only: check a scratch copy
        alt = os.path.join(BUILD, "harness-src")
        subprocess.run("mkdir -p %s && cp -a %s/Cargo.* %s/src %s/ && sed -i 's#path = \"/repo\"#path = \"%s\"#' %s/Cargo.toml" % (alt, src, src, alt, REPO, alt), shell=True, check=True)
        src = alt
    rc, o, e = run(cmd, cwd=src, env=env, timeout=600)
    if rc != 0:
        return None, e[-3000:]
    return os.path.join(BUILD, "harness-" + group, "debug", "plusendi-verif-harness"), ""


def run_harness(binary, prop, secs, seed, extra=()):
    d = tempfile.mkdtemp(prefix="plusendi-verif-")
    out = os.path.join(d, "out.json")
    cmd = ["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x", binary, prop, out, "--seed", str(seed), "--tier", TIER, "--secs", str(secs)] + list(extra)
    rc, o, e = run(cmd, timeout=secs + 240)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except Exception:
            res = None
    if res is None and rc not in (0, 1) and "--trace" not in extra:
        # the process died (abort, stack overflow, memory): find the input
        r2 = run_harness(binary, prop, secs, seed, list(extra) + ["--trace"])
        return r2
    if res is None and "--trace" in extra:
        cur = out + ".current"
        inp = open(cur).read() if os.path.exists(cur) else ""
        if inp:
            res = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "exhaustive": False,
                   "violation": {"input": inp, "what": "the process died (exit status %s) %s" % (rc, e[-300:])}}
    subprocess.run(["rm", "-rf", d])
    if res is None:
        res = {"error": "harness exit %s: %s" % (rc, (o + e)[-800:])}
    return res


# ------------------------------------------------------------------ main

def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    cfg = PROPS[PROP]
    os.makedirs(BUILD, exist_ok=True)
    ev = {"property": PROP, "tier": TIER, "seed": SEED}
    secs = cfg.get("secs", 20) if TIER == "quick" else cfg.get("secs_thorough", 300)

    units = [dict(name=u, cone=c) for (u, c) in cfg.get("units", [])]
    outs = [dict() for _ in units]
    errs = []

    def proof_thread():
        try:
            ex = build_extractor()
        except Exception as x:
            for o in outs:
                o.update(status="structural", why=str(x))
            return

        def one(u, o):
            try:
                prove_unit(u["name"], u["cone"], ex, o)
            except Exception as x:  # the machinery itself, not the code
                o.update(status="structural", why="machinery: %r" % (x,))
            log("proof unit", u["name"], o.get("status"), o.get("why", ""))

        ts = [threading.Thread(target=one, args=(u, o)) for u, o in zip(units, outs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    th = threading.Thread(target=proof_thread)
    th.start()
    conc = None
    binary, why = (None, "no harness")
    if cfg.get("group") and not os.environ.get("PLUSENDI_PROOF_ONLY"):  # the switch is a development aid
        binary, why = build_harness(cfg["group"])
        log("harness", "built" if binary else "does not build: " + why[-600:])
        if binary:
            conc = run_harness(binary, PROP, secs, SEED)
            log("harness", {k: conc.get(k) for k in ("evaluations", "distinct_nontrivial", "violation", "error")} if conc.get("violation") is None else str(conc["violation"])[:600])
    if conc and conc.get("violation"):
        # decided; give the verifier some time to name the failed obligation
        th.join(float(os.environ.get("PLUSENDI_GRACE", "60")))
        for o in outs:
            if "status" not in o:
                o.update(status="unfinished", why="stopped: a failing input was already found")
                for p in list(RUNNING):
                    try:
                        os.killpg(p.pid, 9)
                    except Exception:
                        pass
    th.join()

    violation = conc.get("violation") if conc else None
    proof_ok = bool(outs) and all(o.get("status") == "ok" for o in outs)
    failed = [f for o in outs if o.get("status") == "failed" for f in o["fails"]]
    # an obligation failed and no input yet: search longer
    if failed and not violation and binary:
        for k in range(1, 4):
            if time.time() - T0 > 500:
                break
            more = run_harness(binary, PROP, min(90, secs * 3), SEED + 1000 * k, ["--deep"])
            if more and more.get("violation"):
                violation = more["violation"]
                break

    status = 0
    lines = []
    replay = os.path.join(VERIF, "replay", "%s.json" % PROP)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    for (fid, text) in known_findings(PROP):
        lines.append("KNOWN-FINDING: property=%s %s" % (PROP, text))
    if violation:
        json.dump({"property": PROP, "kind": "failing input, run against the real code", "input": violation["input"], "what": violation["what"],
                   "failed_obligations": failed[:10],
                   "replay": "plusendi-verif-harness %s OUT --replay '<input>' (build: see check.py build_harness)" % PROP}, open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (PROP, replay))
        status = 1
    elif failed:
        json.dump({"property": PROP, "kind": "failed proof obligation, no failing input found", "failed_obligations": failed[:20],
                   "verifier": [o["result"]["cmd"] for o in outs if o.get("result")]}, open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay))
        status = 1
    elif not proof_ok and not (conc and "error" not in conc):
        log("neither the proof nor the bounded check could be run:", [o.get("why") for o in outs], why, conc)
        status = 2

    write_evidence(ev, cfg, outs, conc, proof_ok, failed, violation)
    for l in lines:
        print(l, flush=True)
    if status == 0 and not proof_ok and units:
        print("UNDECIDED-PROOF property=%s: the contracts could not be applied (%s); the bounded check found nothing (bounded, not a proof)"
              % (PROP, "; ".join(str(o.get("why")) for o in outs if o.get("status") != "ok") or "no unit"), flush=True)
    if os.path.isdir(os.path.join(BUILD, "units", "%s-%d" % (PROP, os.getpid()))):
        subprocess.run(["rm", "-rf", os.path.join(BUILD, "units", "%s-%d" % (PROP, os.getpid()))])
    sys.exit(status)


def write_evidence(ev, cfg, outs, conc, proof_ok, failed, violation):
    cov = {}
    ob = sum((o.get("result") or {}).get("verified", 0) + ((o.get("result") or {}).get("errors") or 0) for o in outs)
    dis = sum((o.get("result") or {}).get("verified", 0) for o in outs)
    trusted = sorted(set(t for o in outs for t in o.get("trusted", [])))
    if proof_ok and cfg.get("level", "proof") == "proof":
        ev["level"] = "proof"
    else:
        ev["level"] = "exploration"
    cov["obligations"] = ob
    cov["discharged"] = dis
    cov["checker_cmd"] = "; ".join((o.get("result") or {}).get("cmd", "") for o in outs if o.get("result")) or "verus (not run)"
    cov["trusted_base"] = ["Verus 0.2026.09.13 and its SMT back end Z3", "rustc front end", "extractor in /verif/extract (rewrites listed in DESIGN.md)"] + trusted
    cov["functions_under_contract"] = sorted(set(f for o in outs for f in o.get("functions", [])))
    cov["units"] = [{"unit": o.get("unit"), "status": o.get("status"), "why": o.get("why"), "verified": (o.get("result") or {}).get("verified"),
                     "errors": (o.get("result") or {}).get("errors"), "solver_ms": (o.get("result") or {}).get("smt_ms"),
                     "wall_s": round((o.get("result") or {}).get("wall", 0), 1), "vacuity_canary": o.get("canary")} for o in outs]
    if failed:
        cov["failed_obligations"] = [{k: f[k] for k in ("function", "kind", "obligation", "repo_line")} for f in failed[:20]]
    if conc and "error" not in conc:
        b = {"label": "BOUNDED replay harness against the real crate; never counted as proved"}
        b.update({k: conc.get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "exhaustive")})
        cov["bounded_replay"] = b
        if ev["level"] != "proof":
            cov["evaluations"] = conc.get("evaluations", 0)
            cov["distinct_nontrivial"] = conc.get("distinct_nontrivial", 0)
            cov["rule"] = conc.get("rule") or "see bounded_replay"
            cov["samples"] = conc.get("samples") or ["none"]
    elif ev["level"] != "proof":
        cov.update({"evaluations": 0, "distinct_nontrivial": 0, "rule": "harness did not run", "samples": ["none"]})
    ev["coverage"] = cov
    ev["assumptions"] = cfg.get("assumptions", []) + TRUSTED
    ev["violations"] = 1 if (violation or failed) else 0
    ev["wall_s"] = round(time.time() - T0, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)


if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py <property>")
        sys.exit(2)
    PROP = sys.argv[1]
    if len(sys.argv) > 2:
        TIER = sys.argv[2]
    main()
