#!/usr/bin/env python3
"""Decides one property of /repo.

  python3 check.py PROP               run the check of a property
  python3 check.py --replay O S I     run again one case of an oracle
  python3 check.py --setup            build the extractor and the oracles
  python3 check.py --record           record the baseline of the units

For each unit of the property: the functions of /repo are extracted (tools/vx),
annotated with their contracts (units/*.vu) and given to Verus, which has to
discharge every obligation. See DESIGN.md for the outcomes.
"""
import fcntl, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(BUILD, "work")
EVID = os.path.join(VERIF, "evidence")
VX = os.path.join(BUILD, "target-vx", "debug", "vx")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
PROPS = json.load(open(os.path.join(VERIF, "units", "props.json")))


def log(msg):
    print("[%s] %s" % (time.strftime("%H:%M:%S"), msg), flush=True)


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target-vx"))
    with Lock():
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], 600, cwd=os.path.join(VERIF, "tools", "vx"), env=env)
    if rc != 0 and not os.path.exists(VX):
        log("the extractor does not build:\n" + e[-3000:])
    return os.path.exists(VX)


def build_replay():
    """Builds the oracles against /repo's working tree; None if it does not build.

    When they do not build with the hook (a change renames or removes what the
    hook shows), the ones that only need the public interface are built.
    """
    for target, flags in [("target", "--cfg wruster_verif -Awarnings"), ("target-plain", "-Awarnings")]:
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, target), RUSTFLAGS=flags)
        with Lock():
            rc, o, e = sh(["cargo", "build", "--offline", "-q"], 400, cwd=os.path.join(VERIF, "replay"), env=env)
        if rc == 0:
            return os.path.join(BUILD, target, "debug", "replay")
        log("the oracles do not build against this tree%s:\n%s" % (" with the hook" if target == "target" else "", e[-3000:]))
    return None


# ---- the verifier ---------------------------------------------------------
def verus(path, rlimit, timeout):
    rc, o, e = sh(["verus", "--output-json", "--time", "--error-format=json", "--multiple-errors", "3", "--rlimit", str(rlimit),
                   os.path.basename(path)], timeout, cwd=os.path.dirname(path))
    diags = []
    for line in (e + "\n" + o).splitlines():
        if line.startswith("{\"$message_type\""):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    res = {}
    m = re.search(r"^\{\n", o, re.M)
    if m:
        try:
            res = json.JSONDecoder().raw_decode(o[m.start():])[0]
        except ValueError:
            res = {}
    return rc, res, [d for d in diags if d.get("level") == "error"], e


VERIFY_MSG = re.compile(
    r"not satisfied|assertion failed|possible arithmetic|possible division|could not prove|cannot show|invariant not|"
    r"might not|may not|possible bit shift|failed precondition|unable to prove|requirement not met|possible truncation|"
    r"index in bounds|decreases|termination|loop must|not all errors", re.I)


def locate(diag, recs):
    """The record whose text a diagnostic is about."""
    spans = [s for s in diag.get("spans", []) if s["file_name"].endswith(".rs")]
    order = [s for s in spans if s.get("is_primary")] + [s for s in spans if not s.get("is_primary")]
    found = []
    for s in order:
        for r in recs:
            if r["out"][0] <= s["line_start"] <= r["out"][1]:
                found.append(r)
    # The primary span of a failed precondition or postcondition can be in the
    # contract of another function: the body is where the exit or the call is.
    return found


def enclosing(diag, recs):
    f = locate(diag, recs)
    if not f:
        return None
    if "precondition" in diag["message"]:
        # primary: the call; secondary: the contract of the callee
        return f[0]
    ids = [r for r in f if r["kind"] == "fn"]
    return (ids or f)[0]


def extract(unit, out, mp, degrade=(), probe=False):
    cmd = [VX, os.path.join(VERIF, "units", unit + ".vu"), "--repo", REPO, "--out", out, "--map", mp,
           "--base", os.path.join(VERIF, "units", "base", unit + ".txt")]
    for d in degrade:
        cmd += ["--degrade", d]
    if probe:
        cmd += ["--probe", "all"]
    return sh(cmd, 120)


def run_unit(unit, rlimit, timeout=400):
    """Extracts and verifies one unit."""
    w = os.path.join(WORK, unit)
    os.makedirs(w, exist_ok=True)
    out, mp = os.path.join(w, unit + ".rs"), os.path.join(w, unit + ".json")
    r = dict(unit=unit, failures=[], degraded={}, lost={}, recs=[], verified=0, errors=0, smt_ms=0, total_ms=0, text="", runs=0, breakdown=[])
    t_end = time.time() + timeout
    degrade = []
    big = False
    while True:
        rc, o, e = extract(unit, out, mp, degrade)
        if rc != 0:
            r["lost"]["unit"] = "extraction failed: " + (e + o)[-400:]
            return r
        recs = json.load(open(mp))
        r["recs"] = recs
        r["text"] = open(out).read()
        r["lost"] = {x["id"]: x["status"] for x in recs if x["status"].startswith("lost")}
        rc, res, diags, raw = verus(out, rlimit * (4 if big else 1), max(10, t_end - time.time()))
        r["runs"] += 1
        vr = res.get("verification-results", {})
        tm = res.get("times-ms", {})
        r["smt_ms"] += tm.get("smt", {}).get("total", 0)
        r["total_ms"] += tm.get("total", 0)
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["breakdown"] = [f for m in tm.get("smt", {}).get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
        if vr.get("success"):
            r["failures"] = []
            return r
        if rc == 124 or not vr:
            r["lost"]["unit"] = "the verifier did not finish: " + raw[-300:]
            return r
        real, broken, rl = [], [], []
        for d in diags:
            m = d["message"]
            if m.startswith("aborting due to") or m.startswith("For more information"):
                continue
            rec = enclosing(d, recs)
            item = dict(fn=rec["id"] if rec else "", file=rec["file"] if rec else "", src=rec.get("src") if rec else None,
                        message=m, text=d.get("rendered", "")[:4000])
            if "rlimit" in m or "Resource limit" in m:
                rl.append((rec, item))
            elif d.get("code") is None and VERIFY_MSG.search(m) and (r["verified"] + r["errors"]) > 0:
                real.append(item)
            else:
                broken.append((rec, item, d))
        if r["verified"] + r["errors"] > 0 and not broken:
            if rl and not big:
                big = True
                continue
            if rl:
                new = [x[0]["id"] for x in rl if x[0] and x[0]["kind"] == "fn" and x[0]["id"] not in degrade]
                for x in rl:
                    r["degraded"][x[0]["id"] if x[0] else "?"] = "resource limit"
                if new and not real:
                    degrade += new
                    if time.time() < t_end - 20:
                        continue
            # A failure where the annotations at hand do not cover the text is no verdict.
            strange = {x["id"]: [n for n in x.get("notes", []) if n.startswith("strange:")] for x in recs}
            odd = [i for i in real if strange.get(i["fn"])]
            new = [i for i in dict.fromkeys(x["fn"] for x in odd) if i not in degrade]
            for i in odd:
                r["degraded"][i["fn"]] = "; ".join(strange[i["fn"]]) + ": " + i["message"]
            if new and time.time() < t_end - 20:
                degrade += new
                continue
            real = [i for i in real if i not in odd]
            r["failures"] = real
            if not real and not rl and not odd:
                r["lost"]["unit"] = "unexpected answer of the verifier: " + raw[-400:]
            return r
        # The text is not accepted by the compiler or by Verus.
        new = []
        for rec, item, d in broken:
            cands = [x for x in locate(d, recs) if x["kind"] == "fn"]
            for c in cands[:1]:
                if c["id"] not in degrade and c["id"] not in new:
                    new.append(c["id"])
                    r["degraded"][c["id"]] = item["message"][:300]
        if not new or len(degrade) > 25 or time.time() > t_end - 15:
            r["lost"]["unit"] = "not accepted by the verifier: " + "; ".join(x[1]["message"] for x in broken[:4])[:600]
            return r
        degrade += new


def probes(unit, rlimit):
    """Every function must have reachable code: assert(false) at its start must fail."""
    w = os.path.join(WORK, unit)
    out, mp = os.path.join(w, unit + "_probe.rs"), os.path.join(w, unit + "_probe.json")
    extract(unit, out, mp, (), True)
    recs = json.load(open(mp))
    rc, res, diags, raw = verus(out, rlimit, 300)
    hit = set()
    for d in diags:
        if "assertion failed" in d["message"]:
            for r in locate(d, recs):
                hit.add(r["id"])
    vac = [r["id"] for r in recs if r["kind"] == "fn" and r["status"] == "ok" and not r["noprobe"] and r["id"] not in hit]
    return len(hit), vac


def trusted(text):
    t = set()
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        t.add("assumed contract of " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)", text):
        t.add("%s %s (external_body)" % (m.group(1), m.group(2)))
    for m in re.finditer(r"\b(?:axiom|broadcast axiom)\s+fn\s+(\w+)", text):
        t.add("axiom " + m.group(1))
    for m in re.finditer(r"uninterp\s+spec\s+fn\s+(\w+)", text):
        t.add("uninterpreted " + m.group(1))
    n = len(re.findall(r"\b(?:assume|admit)\s*\(", text))
    if n:
        t.add("%d assume/admit" % n)
    return sorted(t)


# ---- the oracles ----------------------------------------------------------
def search(prop, ms, skip=()):
    exe = build_replay()
    if exe is None:
        return None
    scratch = os.path.join(WORK, "scratch_" + prop)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    out = os.path.join(WORK, prop + "_search.json")
    for f in (out, out + ".died"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "search", prop, "--ms", str(ms), "--seed", str(SEED), "--out", out]
    for s in skip:
        cmd += ["--skip", s]
    env = dict(os.environ, TMPDIR=scratch, RUST_BACKTRACE="0")
    rc, o, e = sh(cmd, ms / 1000 + 200, cwd=scratch, env=env)
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        # The process died (abort, stack overflow, signal).
        return dict(oracles=[], violation=None, died="rc=%s %s" % (rc, (o + e)[-600:]))


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) oracle=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def check(prop):
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    deep = TIER == "thorough"
    rlimit = 60 if deep else 30
    units = []
    vac = []
    nprobe = 0
    if not build_vx():
        units.append(dict(unit="-", failures=[], degraded={}, lost={"unit": "extractor not available"}, recs=[], verified=0, errors=0,
                          smt_ms=0, total_ms=0, text="", runs=0, breakdown=[]))
    else:
        for u in cfg["units"]:
            r = run_unit(u, rlimit)
            units.append(r)
            log("unit %s: %d verified, %d errors, degraded %s, lost %s" % (u, r["verified"], r["errors"], list(r["degraded"].items()), list(r["lost"].items())))
            if not r["failures"] and not r["degraded"] and not r["lost"]:
                n, v = probes(u, rlimit)
                nprobe += n
                vac += ["%s/%s" % (u, x) for x in v]
    failures = [dict(f, unit=r["unit"]) for r in units for f in r["failures"]]
    undecided = {}
    for r in units:
        for k, v in list(r["degraded"].items()) + list(r["lost"].items()):
            undecided["%s/%s" % (r["unit"], k)] = v
    for v in vac:
        undecided[v] = "the contract is vacuous here"
    known = known_findings(prop)
    ms = cfg.get("ms", 8000)
    if failures or undecided:
        ms = cfg.get("ms_deep", 60000)
    if deep:
        ms *= 4
    for f in failures:
        log("failed obligation in %s: %s\n%s" % (f["fn"], f["message"], f["text"]))
    for k, v in undecided.items():
        log("not decided by the verifier: %s (%s)" % (k, v))
    s = search(prop, ms, [k for k, _ in known])
    found = s.get("violation") if s else None
    if s and s.get("died"):
        log("the oracles died: " + s["died"])
        if prop_dies(s["died"]):
            case, note, last = "", "the oracles of " + prop, ""
            try:
                case, note, last = (open(os.path.join(WORK, prop + "_search.json.died")).read() + "\n\n").split("\n", 2)
            except OSError:
                pass
            found = dict(property=prop, oracle=case or "process", input=note, last_panic=last.strip(), observed="the process died: " + s["died"],
                         replay_cmd="python3 /verif/check.py --replay " + case if case else "cd /verif && VERIF_SEED=%d python3 check.py %s" % (SEED, prop))
    for o, what in known:
        print("KNOWN-FINDING: property=%s oracle=%s %s" % (prop, o, what), flush=True)

    # ---- evidence
    fns = [r for u in units for r in u["recs"] if r["kind"] == "fn"]
    ok = [r for r in fns if r["status"] == "ok" and not r["external"]]
    assumed = ["contract of %s (%s), proved by the unit that owns it" % (r["id"], r["file"]) for r in fns if r["external"]]
    obligations = sum(u["verified"] + u["errors"] for u in units)
    discharged = sum(u["verified"] for u in units)
    orcs = (s or {}).get("oracles", [])
    evals = sum(o["evaluations"] for o in orcs)
    dist = sum(o["distinct_nontrivial"] for o in orcs)
    tb = sorted({t for u in units for t in trusted(u["text"])})
    rewrites = sorted({n for r in fns for n in r.get("notes", [])})
    proved = not failures and not undecided and discharged > 0
    level = cfg.get("level", "proof")
    cov = dict(
        functions_under_contract=["%s (%s:%d-%d)" % (r["id"], r["file"], r["src"][0], r["src"][1]) for r in ok],
        functions_not_decided=undecided,
        bounded_standins=[dict(name=o["name"], rule=o["rule"], evaluations=o["evaluations"], distinct_nontrivial=o["distinct_nontrivial"],
                               label="bounded") for o in orcs],
        bounded_only=cfg.get("bounded", []),
        vacuity_probes_refuted=nprobe,
        solver_ms=sum(u["smt_ms"] for u in units), verifier_ms=sum(u["total_ms"] for u in units),
        backend="Verus 0.2026.09.13 / Z3",
        slowest_queries=["%s %d ms" % (f["function"], f["time"]) for f in sorted((f for u in units for f in u["breakdown"]), key=lambda f: -f["time"])[:5]],
        extraction_rewrites=rewrites[:60],
        samples=[x for o in orcs for x in o["samples"]][:4],
        evaluations=evals, distinct_nontrivial=dist,
        rule="bounded cases run on the real code next to the proof; see bounded_standins",
    )
    if level == "proof" and not proved:
        level = "other"
        cov["explanation"] = "the verifier did not decide every obligation on this tree: bounded cases only" if not failures else "obligations failed"
    if level == "proof":
        cov.update(obligations=obligations, discharged=discharged,
                   checker_cmd="; ".join("verus %s/%s.rs" % (os.path.join(WORK, u["unit"]), u["unit"]) for u in units),
                   trusted_base=tb + assumed + ["vstd and Verus' encoding of Rust", "Z3", "tools/vx (extraction)"])
    elif level == "other" and "explanation" not in cov:
        cov["explanation"] = cfg.get("explanation", "see DESIGN.md")
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=0)

    rp = os.path.join(EVID, "replay_%s.json" % prop)
    if os.path.exists(rp):
        os.remove(rp)
    code = 0
    if found or failures:
        ev["violations"] = 1
        doc = dict(property=prop, failing_input=found, failed_obligations=failures, not_decided=undecided)
        if not found:
            doc["note"] = "no failing input was found by running the real code; the obligations above were not discharged by the verifier"
            doc["rerun"] = "cd /verif && python3 check.py " + prop
            doc["verified_text"] = [os.path.join(WORK, u["unit"], u["unit"] + ".rs") for u in units if u["failures"]]
        json.dump(doc, open(rp, "w"), indent=1)
        tail = "" if found else " no-failing-input-found"
        if found:
            log("failing input: %s\n  observed: %s" % (found.get("input"), found.get("observed")))
        code = 1
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    log("%s: %d/%d obligations, %d bounded cases, %.1f s" % (prop, discharged, obligations, evals, time.time() - t0))
    if code:
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail), flush=True)
    return code


def prop_dies(msg):
    return "stack overflow" in msg or "rc=-6" in msg or "rc=-11" in msg


def record():
    """Records the local names of every function, run on the unchanged tree."""
    build_vx()
    os.makedirs(os.path.join(VERIF, "units", "base"), exist_ok=True)
    for u in sorted({u for c in PROPS.values() for u in c["units"]}):
        rc, o, e = sh([VX, os.path.join(VERIF, "units", u + ".vu"), "--repo", REPO, "--out", "/dev/null", "--map", "/dev/null",
                       "--record", os.path.join(VERIF, "units", "base", u + ".txt")], 60)
        print(u, rc, e.strip())


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        okv = build_vx()
        okr = build_replay() is not None
        sys.exit(0 if okv and okr else 1)
    if a and a[0] == "--record":
        record()
        sys.exit(0)
    if a and a[0] == "--replay":
        exe = build_replay()
        if exe is None:
            sys.exit(2)
        sys.exit(subprocess.call([exe, "case"] + a[1:]))
    sys.exit(check(a[0]))
