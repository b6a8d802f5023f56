"""C13: queue totals agree with the files they summarise, over histories of edits, partial downloads and restarts."""
import os, threading, time
from gen import Fail
import e2e, qmodel
from qmodel import World, Ops, gen_item, add, compare, MFile
prepare = e2e.prepare
ID = "C13"
LEVEL = "exploration"
RULE = ("one case = 1-4 items (with absent, missing and good articles) and 1-20 steps of editing commands, downloading some articles and restarting the running program; after each step all sizes, counts and health figures of "
        "items, files and the whole queue are compared with sums over the files and articles of a model; non-trivial when at least one article was downloaded and two commands were carried out")
QUICK, THOROUGH = 350, 15000


class Budget:
    """lets a number of answers pass and holds the others until it is opened"""
    def __init__(self, n): self.n, self.open, self.l, self.e = n, False, threading.Lock(), threading.Event()
    def is_set(self):
        with self.l:
            if self.open: return True
            if self.n > 0: self.n -= 1; return True
            return False
    def wait(self, t): self.e.wait(min(t, 0.05))
    def set(self):
        with self.l: self.open = True
        self.e.set()


def setup(ctx):
    w = World(ctx)
    w.OPTS = [o for o in World.OPTS if not o.startswith("ParCheck")] + ["ParCheck=manual", "ArticleCache=0", "FlushQueue=no", "ContinuePartial=yes", "ParRename=no", "RarRename=no"]
    return w


def case(s, ctx):
    w = ctx.env
    hub = w.hub
    hub.reset()
    hub.gate = None
    d = w.daemon()
    model, log, made = [], [], []
    seen, pause_at = [0], [0]
    counts = dict(edit=0, fetch=0, restart=0, done=0)
    finished = []
    def sync():
        """brings the results of articles requested since the last call into the model"""
        with hub.lock: first = seen[0]; new = hub.log[first:]; seen[0] += len(new)
        if not new: return
        arts = {a[2]: (m, f, a) for m in model for f in m.files for a in f.arts}
        touched = set()
        for i, (_, _, mid, kind) in enumerate(new, first):
            if mid not in arts: continue
            if kind != "ok" and (mid in hub.late or i >= pause_at[0]): continue      # refused during a pause: tried again later
            m, f, a = arts[mid]
            a[1] = "ok" if kind == "ok" else "bad"
            counts["fetch"] += 1
            touched.add(id(m))
        for m in list(model):
            if id(m) not in touched: continue
            done = [f for f in m.files if f.done()]
            if not done: continue
            m.files = [f for f in m.files if not f.done()]; m.completed += done
            if all(f.par and f.paused for f in m.files):
                finished.append(m); counts["done"] += 1
    def check():
        what = "; ".join(log)
        end = time.time() + 12
        while True:
            sync()
            try:
                compare(d, model, what, False); compare(d, model, what, True); break
            except Fail:
                if time.time() > end:
                    if os.environ.get("VP_DEBUG"):
                        for m in model + finished: print("MODEL", m.id, [(f.name, f.paused, f.par, f.arts) for f in m.files], [(f.name, f.paused, f.arts) for f in m.completed])
                        for g in d.rpc("listgroups", 0): print({k: v for k, v in g.items() if k not in ("Parameters", "ServerStats", "ScriptStatuses", "Log")})
                        for g in d.rpc("listfiles", 0, 0, 0): print(g)
                        print(d.tail(3000), hub.log)
                    raise
                time.sleep(0.05)
        if finished:
            # waiting for (paused) post-processing, which is left out here
            ids = [m.id for m in finished]
            d.wait(lambda: all(g["Status"] == "PP_QUEUED" for g in d.rpc("listgroups", 0) if g["NZBID"] in ids), "completed items queued for post-processing after " + what)
            if not d.rpc("editqueue", "PostDelete", "", ids): raise Fail("post-processing of %s could not be cancelled" % ids)
            for m in finished: model.remove(m)
            h = {x["NZBID"]: x for x in d.wait(lambda: (lambda r: r if all(i in {y["NZBID"] for y in r} for i in ids) else None)(d.rpc("history", False)), "items in history after " + what)}
            for m in finished:
                x = h[m.id]; allf = m.files + m.completed
                S = lambda n: (x[n + "Hi"] << 32) + x[n + "Lo"]
                fail = sum(f.badbytes() for f in allf if not f.par); size = sum(f.size for f in allf if not f.par)
                hl = 1000 if size == 0 or sum(f.badbytes() for f in allf) == 0 else (size - fail) * 1000 // size
                if hl == 1000 and fail: hl = 999
                got = dict(FileSize=S("FileSize"), TotalArticles=x["TotalArticles"], SuccessArticles=x["SuccessArticles"], FailedArticles=x["FailedArticles"], FileCount=x["FileCount"], Health=x["Health"])
                want = dict(FileSize=m.total(), TotalArticles=sum(len(f.arts) for f in allf), SuccessArticles=sum(f.ok() for f in allf), FailedArticles=sum(f.bad() for f in allf), FileCount=len(allf), Health=hl)
                if got != want: raise Fail("after %s: history of %s (%d): %s, expected %s" % (what, m.name, m.id, got, want))
            finished.clear()
    def idle():
        """waits until nothing is being downloaded"""
        last = None
        def quiet():
            nonlocal last
            cur = (len(hub.log), sum(g["ActiveDownloads"] for g in d.rpc("listgroups", 0)))
            same = cur == last; last = cur
            return same and cur[1] == 0
        d.wait(quiet, "downloads ended after " + "; ".join(log), interval=0.02)
    try:
        def addfn():
            it = gen_item(s, hub, len(made), True); made.append(it)
            add(s, d, model, it); return it
        ops = Ops(s, d, model, hub, True, addfn)
        d.rpc("pausepost")
        for _ in range(s.int(1, 4)): log.append("append " + addfn().name)
        check()
        def fetch():
            pend = sum(1 for m in model for f in m.files if not f.paused for a in f.arts if a[1] is None)
            k = s.int(1, 8)
            log.append("fetch %d" % k)
            b = Budget(k); hub.gate = b; hub.late.clear(); pause_at[0] = 1 << 60
            n0 = len(hub.log)
            d.rpc("resumedownload")
            def arrived():
                n = len(hub.log)
                act = sum(g["ActiveDownloads"] for g in d.rpc("listgroups", 0))
                return n >= n0 + min(k, pend) and n == len(hub.log) and act == n - n0 - (k - b.n)
            d.wait(arrived, "articles requested after " + "; ".join(log), limit=30)
            pause_at[0] = len(hub.log)
            d.rpc("pausedownload")
            b.set(); hub.gate = None
            idle()
        def restart():
            log.append("restart")
            b = Budget(0); hub.gate = b; hub.late.clear()
            pause_at[0] = len(hub.log)
            d.stop(); d.start()
            d.rpc("pausedownload"); d.rpc("pausepost")
            b.set(); hub.gate = None
            idle(); counts["restart"] += 1
        def step():
            x = s.weighted([(10, "edit"), (5, "fetch"), (1, "restart")])
            if x == "edit": log.append("?"); log[-1] = ops.run(); counts["edit"] += 1
            elif x == "fetch": fetch()
            elif s.bool(0.5): restart()
            check()
        s.list(step, 1, 20, 0.9)
        s.notes += log
        w.clean()
    except Fail:
        w.drop(False); raise
    except Exception:
        time.sleep(0.3)
        dead = d.proc is not None and (d.proc.poll() is not None or d.sanitizer())
        t = d.tail() if dead else ""
        w.drop(False)
        if dead: raise Fail("the program died after %s: %s" % ("; ".join(log), t))
        raise
    finally:
        if hub.gate is not None: hub.gate.set(); hub.gate = None
    return dict(nontrivial=counts["fetch"] > 0 and counts["edit"] >= 2, steps=len(log), labels=sorted({l.split(" ")[0] for l in log} | {k for k in counts if counts[k]}), sample=log[:40])
