#!/usr/bin/env python3
"""check.py <PID>: decides one property.

1. vx extracts the functions of /repo's current source and weaves the contracts of /verif/contracts in.
2. Verus discharges every obligation of the modules the property depends on.
3. The concrete oracle (replay) runs the real crate: it looks for a failing input for a failed
   obligation, and is the bounded stand-in for what is outside the verifier's reach.
Exit 0: held.  Exit 1 + "VIOLATION property=.. replay=..": broken.
"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
CON = os.path.join(HERE, "contracts")
PROPS = json.load(open(os.path.join(CON, "props.json")))
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def env_offline():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build(which):
    """cargo build of /verif/vx or /verif/replay; returns (path, error text)"""
    d = os.path.join(HERE, which)
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    rel = ["--release"] if which == "vx" else []
    exe = os.path.join(d, "target", "release" if rel else "debug", which)
    with open(os.path.join(HERE, "work", which + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["cargo", "build", "--offline", *rel], cwd=d, env=env_offline())
        if r.returncode != 0:
            return None, r.stderr[-6000:]
        if which == "replay":
            # a private copy: a later build must not replace the program while it runs
            pass
    return exe, None


# ---------------------------------------------------------------- Verus

class Lowered:
    """x.rs with the map line -> (function id, properties)"""

    def __init__(self, path):
        self.lines = open(path, errors="replace").read().split("\n")
        self.blocks = []
        cur = None
        for i, l in enumerate(self.lines, 1):
            m = re.search(r"/\*VXB (.*) \[([^\]]*)\]\*/", l)
            if m:
                cur = (m.group(1), [p for p in m.group(2).split(",") if p], i)
            elif "/*VXE*/" in l and cur:
                self.blocks.append((cur[2], i, cur[0], cur[1]))
                cur = None
        self.tags = {}
        for a, b, f, props in self.blocks:
            t = set(props)
            for l in self.lines[a - 1:b]:
                for m in re.finditer(r"//\s*\[([C0-9, ]+)\]\s*$", l):
                    t |= {x.strip() for x in m.group(1).split(",")}
            self.tags[f] = self.tags.get(f, set()) | t

    def fn_at(self, line):
        for a, b, f, _ in self.blocks:
            if a <= line <= b:
                return f
        return None

    def line_tags(self, line):
        m = re.search(r"//\s*\[([C0-9, ]+)\]\s*$", self.lines[line - 1])
        return {x.strip() for x in m.group(1).split(",")} if m else set()


CLAUSE = ("failed this postcondition", "failed precondition", "failed this invariant", "failed this")


def diagnostics(stderr):
    out = []
    for l in stderr.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("$message_type", "diagnostic") == "diagnostic" and d.get("level") == "error":
                out.append(d)
    return out


VERIF_MSG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible (arithmetic|division|bit shift|overflow|underflow)|decreases not satisfied|"
    r"could not (prove|show|be proven)|loop (must|ensures)|not satisfied|unable to prove|may (fail|panic)|"
    r"constructed value may fail|index out of|cannot show|requires not satisfied|split assertion|split precondition|split postcondition|failed")


def run_verus(x, mods, workdir, rlimit, extra=(), timeout=600, plain=False, errors=8):
    cmd = [VERUS, os.path.basename(x), "--error-format=json", "--output-json", "--time-expanded", "--triggers-mode", "silent",
           "--multiple-errors", str(errors), "--rlimit", str(rlimit), "--num-threads", "8", *(("--smt-option", "smt.case_split=0") if plain is False else ()), *extra]
    for m in mods:
        cmd += ["--verify-module", m]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        so, se, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        so, se, rc = "", "", -1
    try:
        j = json.loads(so)
    except ValueError:
        j = None
    return dict(cmd=" ".join(cmd), json=j, err=se, rc=rc, wall=time.time() - t)


def classify(run, low):
    """-> (failures, broken): failures = [{fn, kind, clause, tags, text}], broken = {fn or None: text}"""
    fails, broken = [], {}
    for d in diagnostics(run["err"]):
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        spans = d.get("spans", [])
        spans = [s for s in spans if s.get("file_name", "").endswith("x.rs")]
        clause = [s for s in spans if (s.get("label") or "").startswith(CLAUSE)]
        here = [s for s in spans if s not in clause] or spans
        prim = [s for s in here if s.get("is_primary")] or here
        fn = None
        for s in prim + here:
            fn = fn or low.fn_at(s["line_start"])
        if fn is None and "postcondition" in msg and clause:
            fn = low.fn_at(clause[0]["line_start"])
        rl = "Resource limit" in msg or "rlimit" in msg or "took too long" in msg or "timed out" in msg
        verif = bool(VERIF_MSG.search(msg)) and not rl and not d.get("code")
        if not verif:
            broken.setdefault(fn, msg + " :: " + (d.get("rendered") or "")[:700])
            continue
        ctext, tags, line = "", set(), prim[0]["line_start"] if prim else 0
        if clause:
            cl = clause[0]["line_start"]
            ctext = " ".join(x.strip() for x in low.lines[cl - 1:clause[0]["line_end"]])
            if "postcondition" in msg:
                tags = low.line_tags(clause[0]["line_end"])
        elif prim:
            ctext = " ".join(x.strip() for x in low.lines[prim[0]["line_start"] - 1:prim[0]["line_end"]])
            tags = low.line_tags(prim[0]["line_end"])
        if not tags:
            tags = set(low.tags.get(fn, set()))
        fails.append(dict(fn=fn, kind=msg, clause=ctext[:400], line=line, tags=sorted(tags), text=(d.get("rendered") or "")[:3000]))
    return fails, broken


def upto(pid):
    """the modules extracted for a property: those it verifies and the ones before them (their dependencies)"""
    order = [l.split()[0] for l in open(os.path.join(CON, "modules.txt")) if l.strip() and not l.startswith("#")]
    ks = [order.index(m) for m in PROPS[pid]["modules"] + [PROPS[pid].get("upto")] if m in order]
    return ["--upto", order[max(ks)]] if ks else []


def used_modules(pid):
    order = [l.split()[0] for l in open(os.path.join(CON, "modules.txt")) if l.strip() and not l.startswith("#")]
    ks = [order.index(m) for m in PROPS[pid]["modules"] + [PROPS[pid].get("upto")] if m in order]
    return order[:max(ks) + 1] if ks else []


def prove(pid, workdir, vx, log, orc=None):
    """runs extraction and verification; falls back to stubbing functions the verifier cannot take"""
    mods = PROPS[pid]["modules"]
    stub, reasons = set(), {}
    skip = set(PROPS[pid].get("skip", []))
    x = os.path.join(workdir, "x.rs")
    rep = os.path.join(workdir, "x.json")
    total = 0.0
    deadline = time.time() + 480
    for attempt in range(12):
        r = sh([vx, "--src", os.path.join(REPO, "src"), "--contracts", CON, "--out", x, "--report", rep, "--stub", ";".join(sorted(stub | skip)), *upto(pid)])
        if r.returncode != 0:
            return dict(ok=False, lost="extraction failed: " + r.stderr[-1500:], stub=sorted(stub), reasons=reasons)
        report = json.load(open(rep))
        low = Lowered(x)
        lost = {}
        for f, what in report["lost"]:
            lost.setdefault(f, []).append(what)
        run = run_verus(x, mods, workdir, PROPS[pid].get("rlimit", 30), timeout=PROPS[pid].get("timeout", 600), errors=PROPS[pid].get("errors", 8))
        total += run["wall"]
        fails, broken = classify(run, low)
        log.append("attempt %d: %.1fs, %d failures, broken %s, lost %s, stubbed %s" % (
            attempt, run["wall"], len(fails), {k: v[:300] for k, v in broken.items()}, lost, sorted(stub)))
        vr = (run["json"] or {}).get("verification-results", {})
        new = set()
        for f, why in broken.items():
            if f is None or f in stub:
                continue
            new.add(f)
            reasons.setdefault(f, "outside the verifier's reach: " + why[:300])
        # a function whose annotations no longer fit its text is not proved: bounded stand-in
        for f in lost:
            if f in stub or f in skip:
                continue
            if any(q["fn"] == f for q in fails) or f in broken:
                new.add(f)
                reasons.setdefault(f, "annotations lost: " + "; ".join(lost[f]))
        if new:
            stub |= new
            continue
        if broken or not vr or run["json"] is None or vr.get("encountered-vir-error"):
            # not attributable to one function: stub what changed since the contracts were written, once
            changed = changed_fns(workdir, vx) - stub
            if changed and attempt < 6:
                for f in changed:
                    reasons.setdefault(f, "extraction no longer accepted: " + str(list(broken.values())[:1])[:400])
                stub |= changed
                continue
            return dict(ok=False, lost="verifier did not accept the extracted text: " + str(broken or run["err"][-1500:])[:1500], stub=sorted(stub), reasons=reasons, wall=total)
        if fails:
            # solver luck: other seeds, more resources, before anything is called a failure
            for seed, plain in ((0, True), (7, False), (23, True)):
                if found_already(orc):
                    log.append("the oracle has a failing input: no retries")
                    break
                left = deadline - time.time()
                again = [m for m in mods if any(str(q["fn"]).rsplit("::", 1)[0].startswith(m) or q["fn"] is None for q in fails)] or mods
                if left < 60:
                    log.append("no time left for another run")
                    break
                run2 = run_verus(x, again, workdir, PROPS[pid].get("rlimit", 30) * 3, ("--smt-option", "smt.random_seed=%d" % seed), plain=plain, timeout=left, errors=PROPS[pid].get("errors", 8))
                total += run2["wall"]
                f2, b2 = classify(run2, low)
                bad2 = {q["fn"] for q in f2}
                log.append("retry seed %d: %.1fs, failing functions %s" % (seed, run2["wall"], sorted(str(z) for z in bad2)))
                if run2["json"] and not b2:
                    fails = [q for q in fails if q["fn"] in bad2]
                if not fails:
                    break
            if not fails:
                # every obligation was discharged by one of the runs
                for m in run["json"]["times-ms"]["smt"]["smt-run-module-times"]:
                    for b in m.get("function-breakdown", []):
                        b["success"] = True
        return dict(ok=True, fails=fails, run=run, low=low, report=report, stub=sorted(stub), reasons=reasons, lost_anchors=lost, wall=total, mods=mods)
    return dict(ok=False, lost="no stable extraction", stub=sorted(stub), reasons=reasons, wall=total)


def fn_hashes(workdir, vx):
    rep = os.path.join(workdir, "h.json")
    r = sh([vx, "--src", os.path.join(REPO, "src"), "--contracts", CON, "--out", os.path.join(workdir, "h.rs"), "--report", rep, "--hash"])
    if r.returncode != 0:
        return {}
    h = json.load(open(rep)).get("hashes", {})
    return {k: hashlib.sha1(v.encode()).hexdigest()[:12] for k, v in h.items()}


def changed_fns(workdir, vx):
    ref = json.load(open(os.path.join(CON, "reference_hashes.json"))) if os.path.exists(os.path.join(CON, "reference_hashes.json")) else {}
    return {k for k, v in fn_hashes(workdir, vx).items() if ref.get(k) != v}


def vacuity(pid, workdir, vx, stub):
    """assert(false) at the start of every function must fail: no contradictory precondition or assumption"""
    x = os.path.join(workdir, "xv.rs")
    r = sh([vx, "--src", os.path.join(REPO, "src"), "--contracts", CON, "--out", x, "--report", os.path.join(workdir, "xv.json"),
            "--stub", ";".join(stub), "--vacuity", *upto(pid)])
    if r.returncode != 0:
        return None
    low = Lowered(x)
    rep = json.load(open(os.path.join(workdir, "xv.json")))
    run = run_verus(x, PROPS[pid]["modules"], workdir, 10, ("--no-auto-recommends-check",))
    failed = set()
    for d in diagnostics(run["err"]):
        for s in d.get("spans", []):
            f = low.fn_at(s["line_start"])
            if f and "assert(false)" in low.lines[s["line_start"] - 1]:
                failed.add(f)
    mods = set(PROPS[pid]["modules"])
    want = {f["id"] for f in rep["fns"] if f["status"] == "verified" and f["id"].rsplit("::", 1)[0].split("::")[0] in {m.split("::")[0] for m in mods}}
    want = {w for w in want if any(w.startswith(m + "::") for m in mods)}
    have_body = {w for w in want if any("assert(false)" in l for (a, b, f, _) in low.blocks if f == w for l in low.lines[a - 1:b])}
    return dict(functions=len(have_body), vacuous=sorted(have_body - failed))


def trusted(low):
    out = []
    txt = low.lines
    for i, l in enumerate(txt):
        if "external_body" in l and "verifier" in l:
            for k in range(i + 1, min(i + 6, len(txt))):
                m = re.search(r"(fn|struct|enum)\s+(\w+)", txt[k])
                if m:
                    out.append(m.group(2))
                    break
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("assume: " + l.strip()[:100])
        if "assume_specification" in l:
            out.append("assumed specification: " + l.strip()[:120])
    return out


# ---------------------------------------------------------------- main

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    cfg = PROPS[pid]
    work = os.path.join(HERE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "scratch"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    log = []

    vx, err = build("vx")
    if err:
        print("building the extractor failed:\n" + err)
        sys.exit(2)
    rp, err = build("replay")
    if err:
        print("building the harness against /repo failed:\n" + err)
        sys.exit(2)
    exe = os.path.join(work, "replay")
    shutil.copy2(rp, exe)

    budget = cfg.get("budget", 25) if tier == "quick" else cfg.get("thorough_budget", 400)
    orc = start_oracle(pid, exe, work, seed, budget, tier)

    p = prove(pid, work, vx, log, orc) if cfg["modules"] else dict(ok=False, lost="no function of this property is under contract", stub=[], reasons={})
    vac = None
    if p["ok"] and not p["fails"] and tier == "thorough":
        vac = vacuity(pid, work, vx, p["stub"])
    o = finish_oracle(orc, budget)

    violations = []
    own = []
    if p["ok"]:
        own = [q for q in p["fails"] if pid in q["tags"]]
    known = load_known(pid)
    lines = []
    if o.get("violation"):
        k = [e for e in known if e["match"] in o["violation"]]
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else:
            violations.append(o["violation"])
    if own and not violations and tier == "quick":
        # look longer for a failing input
        orc2 = start_oracle(pid, exe, work, seed + 1000, max(60, budget * 3), tier, name="o2")
        o2 = finish_oracle(orc2, max(60, budget * 3))
        if o2.get("violation") and not [e for e in known if e["match"] in o2["violation"]]:
            violations.append(o2["violation"])
    rc = 0
    if own or violations:
        rc = 1
        path = os.path.join(work, "violation.txt")
        with open(path, "w") as f:
            f.write("property %s: %s\n\n" % (pid, cfg["title"]))
            if violations:
                f.write("failing case found on the real code (seed %d; rerun: %s %s --seed %d --budget %d):\n%s\n\n" % (seed, exe, pid, seed, budget, violations[0]))
            else:
                f.write("no failing input was found by the concrete oracle (%s cases).\n\n" % o.get("evaluations"))
            for q in own:
                f.write("failed obligation: function %s: %s\n  clause: %s\n%s\n\n" % (q["fn"], q["kind"], q["clause"], q["text"]))
        for q in own[:6]:
            print("failed obligation: %s: %s: %s" % (q["fn"], q["kind"], q["clause"][:200]))
        for v in violations:
            print(v[:1500])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if violations else " no-failing-input-found"))
    for l in lines:
        print(l)

    ev = evidence(pid, cfg, tier, seed, p, o, vac, len(violations) + (1 if own and not violations else 0), time.time() - t0)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(work, "log.txt"), "w") as f:
        f.write("\n".join(log))
    c = ev["coverage"]
    print("%s: %s: %s/%s obligations discharged, %s oracle cases, %.0fs" % (
        pid, "BROKEN" if rc else "held", c.get("discharged"), c.get("obligations"), c.get("bounded_cases", c.get("evaluations")), time.time() - t0))
    if not p["ok"]:
        print("note: " + str(p["lost"])[:600])
    if p.get("stub"):
        print("note: bounded stand-in for " + ", ".join(p["stub"]))
    sys.exit(rc)


def found_already(o):
    """the oracle has ended with a failing case"""
    if o is None or o["p"].poll() is None:
        return False
    if o["p"].returncode != 0:
        return True
    try:
        return bool(json.load(open(o["out"])).get("violation"))
    except (OSError, ValueError):
        return False


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def start_oracle(pid, exe, work, seed, budget, tier, name="o"):
    out = os.path.join(work, name + ".json")
    case = os.path.join(work, name + ".case")
    scratch = os.path.join(work, "scratch", name)
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, pid, "--seed", str(seed), "--budget", str(budget), "--out", out, "--scratch", scratch, "--case", case]
    if tier == "thorough":
        cmd.append("--thorough")
    env = env_offline()
    env["HOME"] = scratch
    pr = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits)
    return dict(p=pr, out=out, case=case, cmd=cmd)


def finish_oracle(o, budget):
    try:
        _, err = o["p"].communicate(timeout=budget + 120)
        rc = o["p"].returncode
    except subprocess.TimeoutExpired:
        o["p"].kill()
        _, err = o["p"].communicate()
        rc = 97
    if rc == 0 and os.path.exists(o["out"]):
        return json.load(open(o["out"]))
    case = ""
    try:
        b = open(o["case"], "rb").read()
        n = int.from_bytes(b[:8], "little")
        case = b[8:8 + n].decode("utf8", "replace")
    except OSError:
        pass
    what = "did not terminate" if rc == 97 else "ended the process (status %s): %s" % (rc, err.decode("utf8", "replace")[-500:])
    if not case:
        print("oracle failed before its first case: " + what)
        sys.exit(2)
    return dict(violation="input: %s\nfailure: %s" % (case, what), evaluations=0, distinct_nontrivial=0, rule="", samples=[case])


def load_known(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=\"(.*?)\" (.*)", l)
            if m and m.group(1) == pid:
                out.append(dict(match=m.group(2), what=m.group(3)))
    return out


def evidence(pid, cfg, tier, seed, p, o, vac, nviol, wall):
    bounded = dict(
        bounded_cases=o.get("evaluations", 0),
        bounded_distinct_nontrivial=o.get("distinct_nontrivial", 0),
        bounded_rule=o.get("rule", ""),
        samples=o.get("samples", [])[:6],
    )
    cov = {}
    assum = list(cfg.get("assumptions", []))
    if p["ok"]:
        low, run = p["low"], p["run"]
        mods = set(p["mods"])
        fns, smt, nob, nd = [], 0.0, 0, 0
        for m in run["json"]["times-ms"]["smt"]["smt-run-module-times"]:
            if m["module"] in mods:
                for b in m.get("function-breakdown", []):
                    nob += 1
                    nd += 1 if b["success"] else 0
                    smt += b["time-micros"] / 1e6
        badfn = {q["fn"] for q in p["fails"]}
        under = sorted(f["id"] for f in p["report"]["fns"] if f["status"] == "verified" and any(f["id"].startswith(m + "::") for m in mods))
        ext = sorted(f["id"] for f in p["report"]["fns"] if f["status"] == "external" and any(f["id"].startswith(m + "::") for m in mods))
        own = sorted(f for f in under if pid in low.tags.get(f, set()))
        nd = min(nd, nob - len(badfn))
        cov.update(
            obligations=nob, discharged=nd,
            obligation_unit="one Verus query group (function body, loop or lemma) of the modules %s" % sorted(mods),
            checker_cmd=run["cmd"] + "   (x.rs regenerated by vx from /repo/src)",
            back_end="Verus 0.2026.09.13 with Z3",
            solver_seconds=round(smt, 2), verifier_wall_s=round(p["wall"], 1),
            functions_under_contract=len(under), functions_of_this_property=own,
            failed_functions=sorted(str(b) for b in badfn),
            trusted_base=sorted(set(trusted(low))) + ["body of %s (contract assumed, bounded check by the oracle)" % e for e in ext if e not in cfg.get("skip", [])] + ["contract of %s (its body is verified by the checks %s)" % (e, ", ".join(q for q in sorted(PROPS) if e.split("::")[0] in PROPS[q]["modules"] and e not in PROPS[q].get("skip", []))) for e in cfg.get("skip", [])],
            contracts_relied_on={m: "contracts of module %s, discharged by the checks %s" % (m, ", ".join(q for q in sorted(PROPS) if m in PROPS[q]["modules"])) for m in used_modules(pid) if m not in mods},
            bounded_stand_ins={f: p["reasons"].get(f, "") for f in p["stub"]},
            extraction_rules=p["report"]["rules"], inlined_helpers=p["report"]["inlined"], functions_without_contract=p["report"]["unlisted"],
            vacuity=vac,
        )
    else:
        cov.update(obligations=0, discharged=0, checker_cmd="verus x.rs", trusted_base=[str(p["lost"])[:800]])
    cov.update(bounded)
    if cfg.get("level", "proof") != "proof":
        cov.update(evaluations=o.get("evaluations", 0), distinct_nontrivial=o.get("distinct_nontrivial", 0), rule=o.get("rule", ""))
    return dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "proof"), coverage=cov, assumptions=assum, wall_s=round(wall, 2), violations=nviol)


main()
