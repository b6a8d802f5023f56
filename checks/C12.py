"""C12: queue editing commands do exactly what they say."""
import os
from gen import Fail
import e2e, qmodel
from e2e import tree
from qmodel import World, Ops, gen_item, add, compare
prepare = e2e.prepare
ID = "C12"
LEVEL = "exploration"
RULE = ("one case = 1-5 items of 1-8 files and 1-25 random edit commands (by id, name or pattern, with unknown and repeated ids) sent to the running program, whose whole queue is compared with a model "
        "after each; some cases then download everything left and compare the delivered files; non-trivial when at least three commands were carried out")
QUICK, THOROUGH = 350, 12000


def setup(ctx): return World(ctx)


def case(s, ctx):
    w = ctx.env
    w.hub.reset()
    d = w.daemon()
    model, log, made = [], [], []
    try:
        def addfn():
            it = gen_item(s, w.hub, len(made), False); made.append(it)
            add(s, d, model, it); return it
        ops = Ops(s, d, model, w.hub, False, addfn)
        for _ in range(s.int(1, 5)): log.append("append " + addfn().name); compare(d, model, log[-1], False)
        def step():
            log.append("?"); log[-1] = ops.run()
            compare(d, model, "; ".join(log), False)
        s.list(step, 1, 25, 0.9)
        s.notes += log
        # what left the queue is in the history, unless it was deleted for good
        hist = {h["NZBID"]: h for h in d.rpc("history", False)}
        for i, how in ops.gone:
            if (how == "GroupFinalDelete") == (i in hist): raise Fail("item %d after %s: %s in history; %s" % (i, how, "still" if i in hist else "not", log))
            if i in hist and hist[i]["Status"] != ("DELETED/DUPE" if how == "GroupDupeDelete" else "DELETED/MANUAL"): raise Fail("item %d after %s: status %s" % (i, how, hist[i]["Status"]))
        extra = set(hist) - {i for i, _ in ops.gone}
        if extra: raise Fail("items %s in history, which were not deleted; %s" % (sorted(extra), log))
        full = s.bool(0.15) and model
        if full:
            ids = [m.id for m in model]
            d.rpc("editqueue", "GroupResume", "", ids)
            d.rpc("editqueue", "GroupSetPriority", "0", ids)
            d.rpc("resumedownload")
            data = {p.name + str(p.tag): p for it in made for p in it.posts.values()}
            bym = {mid: p for it in made for p in it.posts.values() for mid in p.mids()}
            for m in model:
                h = d.wait_history(m.id)
                got = tree(h["DestDir"])
                want = sorted(bym[f.arts[0][2]].data for f in m.files)
                if len({f.name.lower() for f in m.files}) == len(m.files) and sum(x.name == m.name and x.cat == m.cat for x in model) == 1:
                    wn = {f.name: bym[f.arts[0][2]].data for f in m.files}
                    if got != wn: raise Fail("after %s: item %s delivered %s, expected %s" % (log, m.name, {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in wn.items()}))
            d.rpc("pausedownload")
        w.clean()
    except Fail as e:
        w.drop(False); raise
    except (OSError, Exception) as e:
        import http.client, time
        time.sleep(0.3)
        dead = d.proc is not None and (d.proc.poll() is not None or d.sanitizer())
        t = d.tail() if dead else ""
        w.drop(False)
        if dead: raise Fail("the program died after %s: %s" % ("; ".join(log), t))
        raise
    return dict(nontrivial=ops.count >= 3, steps=ops.count, labels=sorted({l.split(" ")[0] for l in log}) + (["downloaded"] if full else []), sample=log[:40])
