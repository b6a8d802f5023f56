"""Drives a C++ harness (cpp/pbt.h): eight processes, merged statistics, evidence, replay."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import build, engine
from engine import VERIF, SEED, TIER, known_findings, write_evidence, scratch_root

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=6000:handle_abort=1:detect_stack_use_after_return=0"


def env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    e.update(LC_ALL="C.UTF-8", TZ="UTC", ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
    return e


def save(prop, choices, msg):
    d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop.ID, hashlib.sha1(json.dumps(choices).encode()).hexdigest()[:10]))
    json.dump(dict(property=prop.ID, choices=choices, message=msg), open(p, "w"), indent=1)
    return p


def replay_choices(exe, choices, known, limit=120, drop=False):
    d = tempfile.mkdtemp(prefix="vp-p-", dir=scratch_root())
    try:
        with open(d + "/choices", "w") as f: f.write(" ".join(map(str, choices)))
        os.mkdir(d + "/w0"); own(d, drop)
        r = subprocess.run([exe, "--replay", d + "/choices", "--dir", d + "/w0", "--limit", str(limit), "--known", ",".join(known)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), cwd=d + "/w0", **dropkw(drop))
        return r.returncode == 1, r.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def own(d, drop):
    if drop:
        for a, ds, fs in os.walk(d):
            for n in [a] + [os.path.join(a, f) for f in fs]: os.chown(n, 65534, 65534)
    os.chmod(d, 0o755)


def dropkw(drop): return dict(user=65534, group=65534, extra_groups=[]) if drop else {}


def main(prop):
    """prop: ID, HARNESS, RULE, QUICK, THOROUGH [, WRAP, LIMIT, CAP, LEVEL, FUZZ]"""
    import e2e
    t0 = time.time()
    drop = getattr(prop, "DROP", True) and e2e.can_drop()
    try: exe = build.harness(prop.HARNESS, wrap=getattr(prop, "WRAP", ()))
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e); return 2
    tb = time.time() - t0
    known = known_findings(prop.ID)
    if len(sys.argv) > 2 and sys.argv[-2] == "--replay":
        bad, out = replay_choices(exe, json.load(open(sys.argv[-1]))["choices"], known, drop=drop)
        print(out)
        if bad: print("VIOLATION property=%s replay=%s" % (prop.ID, sys.argv[-1])); return 1
        print("replay passes"); return 0
    ncases = prop.QUICK if TIER == "quick" else prop.THOROUGH
    if os.environ.get("VP_CASES"): ncases = int(os.environ["VP_CASES"])
    cap = getattr(prop, "CAP", 240) if TIER == "quick" else getattr(prop, "THOROUGH_CAP", 3600)
    limit = getattr(prop, "LIMIT", 60)
    root = tempfile.mkdtemp(prefix="vp-%s-" % prop.ID, dir=scratch_root())
    nw = engine.WORKERS
    ps = []
    viol, unrep, errors = None, [], []
    labels, hits, samples, nontriv, evals, steps = {}, {}, [], set(), 0, 0
    try:
        for w in range(nw):
            d = os.path.join(root, "w%d" % w); os.mkdir(d); own(d, drop)
        os.chmod(root, 0o755)
        for w in range(nw):
            d = os.path.join(root, "w%d" % w)
            ps.append(subprocess.Popen([exe, "--seed", str(SEED), "--cases", str(ncases), "--worker", str(w), "--workers", str(nw),
                "--dir", d, "--out", os.path.join(d, "res"), "--cap", str(cap), "--limit", str(limit),
                "--shrink", "45" if TIER == "quick" else "300", "--known", ",".join(known)],
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), cwd=d, **dropkw(drop)))
        end = time.time() + cap + 300
        failed_at = None
        while any(p.poll() is None for p in ps):
            time.sleep(0.05)
            for w in range(nw):
                p = os.path.join(root, "w%d" % w, "res")
                if failed_at is None and os.path.exists(p) and ps[w].poll() is not None and "FAIL " in open(p).read(): failed_at = time.time()
            if (failed_at and time.time() > failed_at + 1) or time.time() > end:
                for p in ps:
                    if p.poll() is None: p.terminate()
                time.sleep(0.3)
                for p in ps:
                    if p.poll() is None: p.kill()
        for w in range(nw):
            p = os.path.join(root, "w%d" % w, "res")
            if ps[w].returncode not in (0, -15, -9): errors.append("worker %d: code %s %s" % (w, ps[w].returncode, ps[w].stderr.read()[-2000:]))
            if not os.path.exists(p): continue
            for l in open(p):
                if l.startswith("FAIL "):
                    m = re.match(r'FAIL (\d+) (\d+) ("(?:[^"\\]|\\.)*")(.*)$', l)
                    v = dict(index=int(m.group(1)), tries=int(m.group(2)), msg=json.loads(m.group(3)), choices=[int(x) for x in m.group(4).split()])
                    if viol is None or len(v["choices"]) < len(viol["choices"]): viol = v
                elif l.startswith("UNREP"): unrep.append(l[6:800])
            if os.path.exists(p + ".stats"):
                for l in open(p + ".stats"):
                    try: s = json.loads(l)
                    except ValueError: continue
                    evals += s["evals"]; steps += s["steps"]
                    for k, v in s["labels"].items(): labels[k] = labels.get(k, 0) + v
                    for k, v in s["hits"].items(): hits[k] = hits.get(k, 0) + v
                    nontriv.update(s["nontrivial"])
                    if len(samples) < 6: samples += s["samples"][:1]
    finally:
        for p in ps:
            if p.poll() is None: p.kill()
        subprocess.run(["pkill", "-9", "-f", root], stdout=subprocess.DEVNULL)
        shutil.rmtree(root, ignore_errors=True)
    fuzz = None
    if viol is None and TIER == "thorough" and getattr(prop, "FUZZ", 0):
        fuzz = run_fuzz(prop, known)
        if fuzz.get("crash"): viol = dict(msg=fuzz["crash"], choices=None, tries=0, path=fuzz["path"])
    rc = 0
    rpath = None
    if viol is not None:
        if viol["choices"] is not None:
            rpath = save(prop, viol["choices"], viol["msg"])
        else: rpath = viol["path"]
        rc = 1
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=prop.RULE, samples=samples or ["(none)"],
               labels=dict(sorted(labels.items(), key=lambda x: -x[1])[:80]), steps=steps, unreproduced=unrep[:5], known_hits=hits, workers=nw)
    if fuzz: cov["fuzz"] = {k: v for k, v in fuzz.items() if k != "crash"}
    ev = dict(property=prop.ID, tier=TIER, seed=SEED, level=getattr(prop, "LEVEL", "exploration"), coverage=cov,
              wall_s=round(time.time() - t0, 2), build_s=round(tb, 1))
    if viol: ev["violation"] = dict(message=viol["msg"][:4000], replay=rpath, shrink_tries=viol["tries"])
    write_evidence(prop, ev)
    for k in sorted(known):
        if k in hits: print("KNOWN-FINDING: property=%s %s: %s" % (prop.ID, k, known[k]))
    print("%s: %d cases, %d distinct non-trivial, %d steps, build %.0f s, total %.0f s%s" % (
        prop.ID, evals, len(nontriv), steps, tb, time.time() - t0, ", %d unreproduced" % len(unrep) if unrep else ""))
    if rc:
        print(viol["msg"]); print("VIOLATION property=%s replay=%s" % (prop.ID, rpath)); return 1
    if errors: print("ERROR in the check: " + errors[0]); return 2
    if evals == 0: print("ERROR: nothing ran"); return 2
    return 0


def run_fuzz(prop, known):
    """libFuzzer campaign over the same cases (bytes become choices)."""
    exe = build.harness(prop.HARNESS, fuzz=True, wrap=getattr(prop, "WRAP", ()))
    d = tempfile.mkdtemp(prefix="vp-fuzz-", dir=scratch_root())
    try:
        os.mkdir(d + "/corpus")
        e = env(); e["PBT_KNOWN"] = ",".join(known)
        r = subprocess.run([exe, d + "/corpus", "-seed=%d" % (SEED or 1), "-max_total_time=%d" % prop.FUZZ, "-max_len=4096", "-rss_limit_mb=3000",
                            "-timeout=60", "-fork=8", "-ignore_timeouts=1", "-artifact_prefix=%s/crash-" % d], cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=prop.FUZZ + 300)
        out = r.stdout.decode("utf8", "replace")
        runs = [int(x) for x in re.findall(r"#(\d+):? ", out)]
        res = dict(runs=max(runs or [0]), seconds=prop.FUZZ)
        arts = [f for f in os.listdir(d) if f.startswith("crash-") and not "timeout" in f and not "slow" in f and "oom" not in f]
        for a in arts:
            q = [subprocess.run([exe, os.path.join(d, a)], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for _ in range(3)]
            if all(x.returncode for x in q):
                keep = os.path.join(VERIF, "build", "replay"); os.makedirs(keep, exist_ok=True)
                p = os.path.join(keep, "%s-%s" % (prop.ID, a)); shutil.copy(os.path.join(d, a), p)
                res["crash"] = q[0].stdout.decode("utf8", "replace")[-4000:]; res["path"] = p
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
