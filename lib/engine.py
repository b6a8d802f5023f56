"""Runs one property: generates cases on worker processes, shrinks a failure, writes the
replay file and the evidence.  Exit code 0 or 1 only when the check did its work."""
import hashlib, json, multiprocessing as mp, os, queue, re, shutil, signal, sys, tempfile, time, traceback
from gen import Src, Fail, candidates, case_seed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")
WORKERS = int(os.environ.get("VP_WORKERS", "8"))


def known_findings(prop):
    """{key: text} of the listed, unrepaired findings of a property"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r


def scratch_root():
    return os.environ.get("VP_SCRATCH", "/tmp")


class Ctx:
    """Given to every case.  dir: a scratch directory of this worker."""
    def __init__(self, prop, known, worker):
        self.prop, self.known, self.worker = prop, known, worker
        self.dir = tempfile.mkdtemp(prefix="vp-%s-%d-" % (prop.ID, worker), dir=scratch_root())
        os.chmod(self.dir, 0o755)
        self.hits = {}
        self.env = None

    def fail(self, msg, key=None):
        """Raises Fail, unless key is a listed known finding (then it is only noted)."""
        if key is not None and key in self.known:
            self.hits[key] = self.hits.get(key, 0) + 1
            return
        raise Fail(msg, key)

    def close(self):
        if self.env is not None and hasattr(self.env, "close"): self.env.close()
        if not os.environ.get("VP_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)


def run_case(prop, ctx, src):
    """-> (result dict, None) or (None, failure text)"""
    try:
        r = prop.case(src, ctx) or {}
        return r, None
    except Fail as e:
        return None, e.msg


def worker(prop, w, nw, total, tasks, results, stop, known, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(prop, known, w)
    try:
        if hasattr(prop, "setup"): ctx.env = prop.setup(ctx)
        while True:
            try:
                t = tasks.get(timeout=600)
            except queue.Empty:
                break
            if t is None: break
            kind, ident, payload = t
            if stop.value and kind == "gen":
                results.put(("skip", ident, None)); continue
            src = Src(seed=payload) if kind == "gen" else Src(prefix=payload)
            t0 = time.time()
            try:
                r, f = run_case(prop, ctx, src)
            except Exception:
                results.put(("error", ident, traceback.format_exc())); continue
            dig = hashlib.sha1(json.dumps(src.rec).encode()).hexdigest()[:16]
            if f is None:
                results.put(("ok", ident, dict(r, digest=dig, wall=time.time() - t0, hits=ctx.hits)))
                ctx.hits = {}
            else:
                results.put(("fail", ident, dict(msg=f, rec=src.rec, spans=src.spans, notes=src.notes)))
    except Exception:
        results.put(("error", -1, traceback.format_exc()))
    finally:
        try: ctx.close()
        except Exception: pass
        results.put(("done", w, None))


class Pool:
    def __init__(self, prop, known, seed, n):
        c = mp.get_context("fork")
        self.n = n
        self.tasks, self.results, self.stop = c.Queue(), c.Queue(), c.Value("i", 0)
        self.ps = [c.Process(target=worker, args=(prop, w, n, 0, self.tasks, self.results, self.stop, known, seed),
                             daemon=False) for w in range(n)]
        for p in self.ps: p.start()

    def close(self):
        for _ in self.ps: self.tasks.put(None)
        end = time.time() + 30
        while any(p.is_alive() for p in self.ps) and time.time() < end:
            try: self.results.get(timeout=0.2)
            except queue.Empty: pass
        for p in self.ps:
            if p.is_alive(): p.kill()
            p.join()

    def map_first_fail(self, payloads, deadline):
        """Runs the payloads; -> list of (index, failinfo) for failing ones"""
        for i, p in enumerate(payloads): self.tasks.put(("rep", i, p))
        got, res, errs = 0, [], 0
        while got < len(payloads):
            try: k, i, d = self.results.get(timeout=max(1, deadline - time.time()))
            except queue.Empty: break
            if k == "done": continue
            got += 1
            if k == "fail": res.append((i, d))
        return res


def shrink(pool, prop, first, budget):
    """Greedy parallel shrinking within a time budget; -> smallest failing info"""
    best, end = first, time.time() + budget
    tries = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        batch = []
        it = candidates(best["rec"], best["spans"])
        while time.time() < end:
            batch = []
            for c in it:
                batch.append(c)
                if len(batch) >= pool.n: break
            if not batch: break
            tries += len(batch)
            res = pool.map_first_fail(batch, end + 120)
            if res:
                i, d = min(res, key=lambda x: (len(x[1]["rec"]), sum(x[1]["rec"])))
                if (len(d["rec"]), sum(d["rec"])) < (len(best["rec"]), sum(best["rec"])):
                    best = d; progress = True
                    break
    best["shrink_tries"] = tries
    return best


def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop.ID + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    os.rename(p + ".tmp", p)


def clip(x, n=3000):
    s = json.dumps(x, ensure_ascii=False, default=str)
    return x if len(s) <= n else s[:n] + "..."


def save_replay(prop, info):
    d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(info["rec"]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop.ID, h))
    with open(p, "w") as f:
        json.dump(dict(property=prop.ID, choices=info["rec"], message=info["msg"], notes=info.get("notes", [])[:400]),
                  f, indent=1, ensure_ascii=False, default=str)
    return p


def replay(prop, path):
    d = json.load(open(path))
    known = known_findings(prop.ID)
    if hasattr(prop, "prepare"): prop.prepare()
    pool = Pool(prop, known, SEED, 1)
    res = pool.map_first_fail([d["choices"]], time.time() + 600)
    pool.close()
    if res:
        print(res[0][1]["msg"])
        for n in res[0][1]["notes"]: print("  ", n)
        print("VIOLATION property=%s replay=%s" % (prop.ID, path)); return 1
    print("replay passes"); return 0


def main(prop):
    t0 = time.time()
    if len(sys.argv) > 2 and sys.argv[-2] == "--replay":
        return replay(prop, sys.argv[-1])
    known = known_findings(prop.ID)
    if hasattr(prop, "prepare"): prop.prepare()
    tb = time.time() - t0
    ncases = prop.QUICK if TIER == "quick" else prop.THOROUGH
    if os.environ.get("VP_CASES"): ncases = int(os.environ["VP_CASES"])
    cap = getattr(prop, "CAP", 240) if TIER == "quick" else getattr(prop, "THOROUGH_CAP", 7200)
    nw = min(WORKERS, getattr(prop, "WORKERS", 8))
    pool = Pool(prop, known, SEED, nw)
    seeds = [case_seed(SEED, prop.ID, i) for i in range(ncases)]
    nfix = 0
    fixed = getattr(prop, "FIXED", [])      # explicit choice lists, always run
    for f in fixed: pool.tasks.put(("rep", "f%d" % nfix, list(f))); nfix += 1
    for i, s in enumerate(seeds): pool.tasks.put(("gen", i, s))
    got, evals, nontriv, skipped, unrep, errors = 0, 0, set(), 0, [], []
    labels, samples, hits, fails, sub = {}, [], {}, [], 0
    end = time.time() + cap
    walls = []
    def drain(limit):
        nonlocal got, evals, sub, skipped
        while got < ncases + nfix:
            if time.time() > end: pool.stop.value = 1
            try: k, i, d = pool.results.get(timeout=limit)
            except queue.Empty:
                errors.append("workers stopped answering"); return
            if k == "done": continue
            got += 1
            if k == "skip": skipped += 1; continue
            if k == "error":
                errors.append(d)
                if len(errors) >= 3: pool.stop.value = 1
                continue
            evals += 1
            if k == "fail":
                fails.append(d); pool.stop.value = 1; continue
            walls.append(d.get("wall", 0))
            for l in d.get("labels", []): labels[l] = labels.get(l, 0) + 1
            sub += d.get("steps", 0)
            for kk, v in d.get("hits", {}).items(): hits[kk] = hits.get(kk, 0) + v
            if d.get("nontrivial"):
                nontriv.add(d["digest"])
                if len(samples) < 6 and "sample" in d: samples.append(clip(d["sample"]))
    drain(600)
    tgen = time.time() - t0
    rc = 0
    # A failure counts when it shows again; whatever does not is noted in the evidence.
    confirmed = None
    for f in fails[:6]:
        res = pool.map_first_fail([f["rec"]] * 3, time.time() + 300)
        if not res: res = pool.map_first_fail([f["rec"]] * 8, time.time() + 300)
        if res: confirmed = f if f.get("spans") else res[0][1]; break
        unrep.append(dict(msg=f["msg"][:600], choices=f["rec"][:200]))
    # nothing confirmed: the cases that were skipped still count
    if confirmed is None and fails and not errors:
        left = skipped
        pool.stop.value = 0
        fails2 = []
        skipped_before = skipped
        extra = [case_seed(SEED, prop.ID, ncases + i) for i in range(min(left, ncases))]
        for i, s in enumerate(extra): pool.tasks.put(("gen", ncases + i, s))
        got, n0 = 0, nfix; fails.clear()
        save = ncases; ncases_ = len(extra)
        cnt = 0
        while cnt < ncases_:
            if time.time() > end: pool.stop.value = 1
            try: k, i, d = pool.results.get(timeout=600)
            except queue.Empty: break
            if k == "done": continue
            cnt += 1
            if k == "fail": evals += 1; fails2.append(d); pool.stop.value = 1
            elif k == "ok":
                evals += 1
                for l in d.get("labels", []): labels[l] = labels.get(l, 0) + 1
                sub += d.get("steps", 0)
                for kk, v in d.get("hits", {}).items(): hits[kk] = hits.get(kk, 0) + v
                if d.get("nontrivial"): nontriv.add(d["digest"])
            elif k == "error": errors.append(d)
        for f in fails2[:4]:
            res = pool.map_first_fail([f["rec"]] * 8, time.time() + 300)
            if res: confirmed = f; break
            unrep.append(dict(msg=f["msg"][:600], choices=f["rec"][:200]))
    rpath = None
    if confirmed:
        best = shrink(pool, prop, confirmed, getattr(prop, "SHRINK", 60) if TIER == "quick" else 600)
        rpath = save_replay(prop, best)
        rc = 1
    pool.close()
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=prop.RULE, samples=samples or ["(none)"],
               labels=dict(sorted(labels.items(), key=lambda x: -x[1])[:60]), steps=sub, skipped_by_time_cap=skipped,
               unreproduced=unrep[:5], known_hits=hits, workers=nw)
    ev = dict(property=prop.ID, tier=TIER, seed=SEED, level=getattr(prop, "LEVEL", "exploration"), coverage=cov,
              wall_s=round(time.time() - t0, 2), build_s=round(tb, 1))
    if confirmed: ev["violation"] = dict(message=best["msg"][:4000], replay=rpath, shrink_tries=best.get("shrink_tries", 0))
    write_evidence(prop, ev)
    for k in sorted(known):
        if k in hits: print("KNOWN-FINDING: property=%s %s: %s" % (prop.ID, k, known[k]))
    print("%s: %d cases, %d distinct non-trivial, %d steps, build %.0f s, total %.0f s, slowest case %.1f s%s" % (
        prop.ID, evals, len(nontriv), sub, tb, time.time() - t0, max(walls or [0]),
        ", %d unreproduced" % len(unrep) if unrep else ""))
    if rc:
        print(best["msg"])
        for n in best.get("notes", [])[:60]: print("   ", str(n)[:400])
        print("VIOLATION property=%s replay=%s" % (prop.ID, rpath))
        return 1
    if errors:
        print("ERROR in the check:\n" + errors[0]); return 2
    if evals == 0: return 2
    return 0
