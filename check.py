#!/usr/bin/env python3
"""Decide one property: `check.py C01 [--tier quick|thorough]`.

Compiles /repo's current source together with the harnesses of the property,
has Kani/CBMC execute them symbolically, replays every counterexample natively
and writes evidence/<id>.json. Exit 0: holds within the bounds; 1: violated
(VIOLATION line); 2: no verdict."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
PROPS = json.load(open(os.path.join(ROOT, "checks.json")))


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="--cfg mpst_verif",
             CARGO_INCREMENTAL="0", NO_COLOR="1")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def harness_list(mod):
    """(name, unwind, mode, tier) of the harnesses declared in src/<mod>.rs"""
    src = open(os.path.join(HARNESS, "src", mod + ".rs")).read()
    hs = [(m[0], int(m[1]), m[2], m[3]) for m in
          re.findall(r"^\s*fn (\w+) \[(\d+) (\w+) (\w+)\]", src, re.M)]
    g = re.search(r"fn \$n \[(\d+) (\w+) (\w+)\]", src)
    if g and "windows!(all)" in src:
        timed = open(os.path.join(HARNESS, "src", "timed.rs")).read()
        names = re.findall(r"^\s+(\w+)\s+-?\d+ (?:true|false) -?\d+ (?:true|false);", timed, re.M)
        hs += [(n, int(g[1]), g[2], g[3]) for n in names]
    return hs


FLAGS = ["--no-assertion-reach-checks", "--no-memory-safety-checks", "--no-overflow-checks", "--no-undefined-function-checks",
         "-Z", "unstable-options"]


def kani(mod, names, extra, timeout, out):
    cmd = ["cargo", "kani", "--lib", "--target-dir", TARGET, "--features", mod, "--exact"]
    for n in names:
        cmd += ["--harness", "%s::%s" % (mod, n)]
    cmd += FLAGS + extra
    with open(out, "w") as f:
        try:
            p = subprocess.Popen(cmd, cwd=HARNESS, env=env(), stdout=f, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            p.wait(timeout=timeout)
            return p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return None


def classify(c):
    """relevance of one failed check"""
    d, cat = c["description"], c["category"]
    if d.startswith("PROP:"):
        return "prop"
    if d.startswith("BOUND:") or cat in ("unwind", "recursion", "unsupported_construct") or "unwinding" in d:
        return "bound"
    if cat in ("safety_check", "pointer_dereference", "missing_definition"):
        return "bound"
    return "panic"


def playback(mod, name, timeout, work):
    """concrete values of every failed check of a harness"""
    out = os.path.join(work, "playback-%s" % name)
    kani(mod, [name], ["-Z", "concrete-playback", "--concrete-playback=print"], timeout, out)
    txt = open(out).read()
    res = []
    for m in re.finditer(r"/// Check for `([^`]*)`: \"(.*?)\"\n.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                         txt, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([^\]]*)\]", m[3])]
        res.append((m[1], m[2], vals))
    return res


def build_replay(mod, release, work):
    out = os.path.join(work, "build-replay")
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["RUSTC_BOOTSTRAP"] = "1"
    cmd = ["cargo", "build", "--bin", "replay", "--features", mod, "--target-dir", os.path.join(TARGET, "native")]
    if release:
        cmd.append("--release")
    with open(out, "w") as f:
        r = subprocess.call(cmd, cwd=HARNESS, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r:
        log(open(out).read()[-3000:])
        return None
    return os.path.join(TARGET, "native", "release" if release else "debug", "replay")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    p = PROPS[pid]
    mod = p.get("module", pid.lower())
    t0 = time.time()
    limit = 820 if tier == "quick" else 14400
    hs = [h for h in harness_list(mod) if h[3] == "quick" or tier == "thorough"]
    hs = [h for h in hs if re.search(p.get("select", ""), h[0])]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))
             if k.get("property") == pid and k.get("status") == "known"]
    verdict, violations, notes = 0, [], []
    jfile = os.path.join(work, "out.json")
    rc = kani(mod, [h[0] for h in hs],
              ["-j", str(p.get("jobs", 6)), "--harness-timeout", "%ds" % (limit - 150), "--output-format", "terse", "--export-json", jfile],
              limit - 20, os.path.join(work, "kani"))
    results, stats, data = {}, {}, None
    if os.path.exists(jfile):
        try:
            data = json.load(open(jfile))
        except ValueError:
            data = None
    if data is None:
        log(open(os.path.join(work, "kani")).read()[-6000:])
        log("ERROR: no result from Kani (exit %s)" % rc)
        sys.exit(2)
    for r in data["verification_results"]["results"]:
        results[r["harness_id"]] = r
    for c in data["cbmc"]:
        stats[c["harness_id"]] = c["cbmc_stats"]
    functions, nchecks, queries, samples = set(), 0, 0, []
    solver = 0.0
    # the quickest harness first: one reproduced counterexample is enough
    hs.sort(key=lambda h: (results.get("%s::%s" % (mod, h[0])) or {}).get("duration_ms") or 0)
    for name, unwind, mode, _ in hs:
        hid = "%s::%s" % (mod, name)
        r = results.get(hid)
        if r is None or not r["checks"]:
            log("ERROR: no verdict for %s" % hid)
            verdict = 2
            continue
        st = stats.get(hid, {})
        solver += (st.get("runtime_solver_s") or 0) + (st.get("runtime_symex_s") or 0) + (st.get("runtime_convert_ssa_s") or 0)
        queries += st.get("vccs_remaining") or 0
        nchecks += len(r["checks"])
        bad, reached = [], []
        for c in r["checks"]:
            f = c["location"].get("file", "")
            if f.startswith(REPO):
                functions.add(re.sub(r"::<.*", "", c["function"]))
            if c["category"] == "cover":
                reached.append((c["description"], c["status"]))
                continue
            if c["status"] == "Failure":
                k = classify(c)
                if k == "panic" and mode == "refuse":
                    continue
                bad.append((k, c))
            elif c["status"] in ("Undetermined", "SolverError", "Error"):
                bad.append(("undetermined", c))
        samples.append({"harness": hid, "unwind": unwind, "checks": len(r["checks"]),
                        "steps": st.get("size_program_expression"), "queries": st.get("vccs_remaining"),
                        "solver_s": st.get("runtime_solver_s"), "wall_ms": r["duration_ms"],
                        "witnesses": ["%s: %s" % x for x in reached]})
        real = [b for b in bad if b[0] in ("prop", "panic")]
        if not real and [b for b in bad if b[0] in ("bound", "undetermined")]:
            b = [b for b in bad if b[0] in ("bound", "undetermined")]
            b.sort(key=lambda x: x[0] == "undetermined")
            log("ERROR: %s: no verdict: %s (%s)" % (hid, b[0][1]["description"], b[0][1]["location"]))
            verdict = max(verdict, 2)
        if not real:
            dead = [d for d, s in reached if s not in ("Satisfied", "Success")]
            if dead and not bad:
                # nothing in the code's behaviours gets there any more
                log("NOTE: %s: witness not reachable: %s" % (hid, dead))
                if name not in p.get("dead_ok", []):
                    log("ERROR: %s is vacuous" % hid)
                    verdict = max(verdict, 2)
            continue
        if violations:
            log("NOTE: %s fails as well: %s" % (hid, real[0][1]["description"]))
            continue
        # counterexamples: replay each against the real code
        cex = playback(mod, name, max(60, limit - (time.time() - t0)), work)
        want = {c["description"] for _, c in real}
        reproduced = False
        for kind, desc, vals in cex:
            if kind == "cover" or (desc not in want):
                continue
            text = "\n".join(" ".join(map(str, v)) for v in vals) + "\n"
            tag = hashlib.sha256((hid + desc + text).encode()).hexdigest()[:12]
            rdir = os.path.join(ROOT, "replays")
            os.makedirs(rdir, exist_ok=True)
            rfile = os.path.join(rdir, "%s-%s-%s" % (pid, name, tag))
            with open(rfile, "w") as f:
                f.write("# %s: %s\n" % (hid, desc.replace("\n", " ")))
                f.write("# replay: %s/replay.sh %s %s %s\n" % (ROOT, mod, name, rfile))
                f.write(text)
            codes = []
            for release in (False, True):
                exe = build_replay(mod, release, work)
                if exe is None:
                    break
                try:
                    q = subprocess.run([exe, mod, name, rfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       timeout=60, text=True)
                    codes.append(q.returncode)
                    msg = q.stdout.strip().splitlines()
                except subprocess.TimeoutExpired:
                    codes.append(99)
                    msg = ["does not terminate"]
                if codes[-1] in (10, 11):
                    break
            if codes and codes[-1] in (10, 11):
                reproduced = True
                what = "%s %s" % (hid, desc)
                k = [k for k in known if k["harness"] == hid and re.search(k["check"], desc)]
                if k:
                    log("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
                    os.remove(rfile)
                    continue
                log("counterexample of %s: %s" % (hid, desc))
                log("  values: %s" % " | ".join(" ".join(map(str, v)) for v in vals))
                log("  native replay: %s" % (msg[-1] if msg else ""))
                log("VIOLATION property=%s replay=%s" % (pid, rfile))
                violations.append({"harness": hid, "check": desc, "replay": rfile})
                verdict = 1
                break
            log("  %s: counterexample for '%s' does not reproduce natively (%s)" % (hid, desc, codes))
        if not reproduced:
            log("ERROR: %s: no counterexample reproduced" % hid)
            if verdict == 0:
                verdict = 2
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": p.get("level", "model_checking"),
        "coverage": {
            "explanation": p["explain"],
            "states": sum(s["steps"] or 0 for s in samples),
            "transitions": queries,
            "traces_validated_against_impl": len(violations),
            "samples": samples,
            "functions_encoded": sorted(functions),
            "bounds": p["bounds"],
            "queries_discharged": queries,
            "checks": nchecks,
            "solver_s": round(solver, 1),
            "violations_found": violations,
            "engine": "Kani 0.68 / CBMC 6.11 (symbolic execution of the compiler's MIR, SAT back end CaDiCaL)",
        },
        "assumptions": p.get("assumptions", []) + PROPS["_common"]["assumptions"],
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        verdict = 1
    log("%s %s: %d harnesses, %d checks, exit %d, %.0f s" % (pid, tier, len(hs), nchecks, verdict, time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(verdict)


main()
