"""C11: killing the program loses no work and corrupts nothing."""
import os, signal, struct, time, threading
from gen import Fail
import e2e
from e2e import Daemon, Hub, Post, nzb_doc, tree, RpcError, Died
import http.client
prepare = e2e.prepare
ID = "C11"
LEVEL = "exploration"
RULE = ("one case = 1-4 items added, edited and downloaded while the program is killed 1-4 times, each time at a chosen file-changing system call (half-way through writes) or moment, and started again; after each start every item must be "
        "in the queue or history exactly once with its settings, and finally all files are compared with what was posted; non-trivial when at least one kill happened while there was unfinished work")
QUICK, THOROUGH = 200, 8000
SHRINK = 60
NAMES = ["a.bin", "file one.avi", "data.dat", "b.mkv", "ünï.bin", "x.nfo"]
KILLED = (OSError, http.client.HTTPException, Died)


def setup(ctx):
    h = Hub(); h.add_server()
    class E:
        hub = h
        def close(self): h.close()
    return E()


class It:
    pass


def case(s, ctx):
    hub = ctx.env.hub
    hub.reset()
    opts = ["DirectWrite=" + s.choice(["yes", "no"]), "ArticleCache=%d" % s.choice([0, 0, 100]), "WriteBuffer=%d" % s.choice([0, 1, 64]), "ContinuePartial=" + s.choice(["yes", "no"]),
            "InterDir=" + s.choice(["${MainDir}/inter", ""]), "FlushQueue=" + s.choice(["no", "yes"]), "ParCheck=manual", "ParRename=no", "RarRename=no", "HealthCheck=none",
            "DupeCheck=no", "Category1.Name=Movies", "Category1.Unpack=no", "Category2.Name=TV", "Category2.Unpack=no", "ReorderFiles=no"]
    items = []
    fso = os.path.join(ctx.dir, "fsops")
    d = Daemon(ctx, hub, name="m", opts=opts, env={"VP_FSOPS": fso})
    d.rpc_timeout = 30
    rounds = s.int(1, 4)
    log, kills = [], [0]
    # a call to add an item which was interrupted may have left its file in the incoming directory
    tried, extra = set(), set()

    def fs_set(n):
        with open(fso, "wb") as f: f.write(struct.pack("<qqq", 0, n, 0) + bytes(768))
        os.chmod(fso, 0o666)
    def fs_at():
        b = open(fso, "rb").read()
        return b[24:280].split(b"\0")[0].decode("utf8", "replace"), b[280:792].split(b"\0")[0].decode("utf8", "replace")

    def item():
        it = It(); k = len(items)
        it.name = s.choice(["item %d" % k, "x.y %d" % k, "ü %d" % k]); it.cat = s.choice(["", "Movies"]); it.prio = s.choice([0, 50, -50])
        it.posts = []
        for fi, nm in enumerate(s.shuffle(NAMES)[:s.int(1, 4)]):
            size = s.int(1, 6000); data = s.blob(size)
            cuts = sorted({s.int(1, size - 1) for _ in range(s.n(min(5, size - 1)))}) if size > 1 else []
            it.posts.append(Post(hub, "i%df%d" % (k, fi), nm, data, cuts))
        it.doc = nzb_doc([p.entry for p in it.posts])
        it.paused = s.bool(0.3); it.state = "new"; it.id = None
        it.cat = [it.cat]; it.prio = [it.prio]; it.names = [it.name]; it.pz = [it.paused]
        items.append(it)
        return 1

    def append(it):
        it.state = "trying"
        i = d.append(it.name + ".nzb", it.doc, it.cat[-1], it.prio[-1], s.bool(0.2), it.paused)
        if i <= 0: raise Fail("append refused")
        it.id = i; it.state = "in"
        log.append("append %s as %d" % (it.name, i))

    def edit(it):
        """possible values of each attribute: the one before and the one after an interrupted command"""
        k = s.choice(["cat", "prio", "name", "pause", "resume"])
        def cmd(attr, v, *a):
            l = getattr(it, attr); l.append(v)
            if d.rpc("editqueue", *a):
                # not possible any more while an item is being post-processed
                g = [x for x in d.rpc("listgroups", 0) if x["NZBID"] == it.id]
                if g and (attr == "cat" and g[0]["Category"] != v or attr == "names" and g[0]["NZBName"] != v): l.pop(); return
                if not g: return
                l[:] = [v]; log.append("%s %s %s" % (it.id, k, v))
            else: l.pop()       # is no longer in the queue
        if k == "cat": v = s.choice(["", "Movies", "TV"]); cmd("cat", v, "GroupSetCategory", v, [it.id])
        elif k == "prio": v = s.choice([0, 10, -20, 100]); cmd("prio", v, "GroupSetPriority", str(v), [it.id])
        elif k == "name": v = "renamed %d %d" % (it.id, s.n(3)); cmd("names", v, "GroupSetName", v, [it.id])
        elif k == "pause": cmd("pz", True, "GroupPause", "", [it.id])
        else: cmd("pz", False, "GroupResume", "", [it.id])

    def look():
        """checks the queue and history after a start"""
        def state():
            # an item is moved from the queue to the history between two calls
            while True:
                a = [h["NZBID"] for h in d.rpc("history", False)]
                q = d.rpc("listgroups", 0); h = d.rpc("history", False)
                if a == [x["NZBID"] for x in h]: return q, h
        if any(it.state == "trying" for it in items): d.rpc("scan", True)
        q, h = state()
        what = "killed at %s; %s: " % (fs_at()[0], "; ".join(log))
        ids = [x["NZBID"] for x in q] + [x["NZBID"] for x in h]
        known = {it.id: it for it in items if it.id}
        for x in q + h:
            if x["NZBID"] in known: continue
            if x["NZBID"] in extra: continue
            new = [it for it in items if it.state == "trying"]
            if not new and x["NZBName"] in tried: extra.add(x["NZBID"]); log.append("again %d" % x["NZBID"]); continue
            if not new: raise Fail(what + "item %s (%d) appeared from nowhere" % (x["NZBName"], x["NZBID"]))
            # added by an interrupted call: it may have been found in the incoming directory, without attributes
            it = new[0]; it.id = x["NZBID"]; it.state = "in"; known[it.id] = it
            it.cat = [x["Category"]]; it.pz = [True, False]
            if x in q: it.prio = [x["MaxPriority"]]
        for it in items:
            if it.state == "trying": it.state = "new"; tried.add(it.name)
        for i, it in known.items():
            n = ids.count(i)
            if n != 1:
                at, before = fs_at()
                ctx.fail(what + "item %d is %d times in the queue and %d times in the history (last completed: %s)" % (i, [x["NZBID"] for x in q].count(i), [x["NZBID"] for x in h].count(i), before), None)
        q = [x for x in q if x["NZBID"] not in extra]; h = [x for x in h if x["NZBID"] not in extra]
        for x in q + h:
            it = known[x["NZBID"]]
            if x["NZBName"] not in it.names: raise Fail(what + "name %r, expected %r" % (x["NZBName"], it.names))
            if x["Category"] not in it.cat: raise Fail(what + ("queue " if x in q else "history ") + "category %r, expected %r" % (x["Category"], it.cat))
            if x in q:
                if x["MaxPriority"] not in it.prio: raise Fail(what + "priority %r, expected %r" % (x["MaxPriority"], it.prio))
                if x["Status"] in ("QUEUED", "PAUSED", "DOWNLOADING") and x["RemainingSizeLo"] > 0 and (x["PausedSizeLo"] == x["RemainingSizeLo"]) not in it.pz:
                    raise Fail(what + "item %d: status %s, paused %d of %d, expected %s" % (it.id, x["Status"], x["PausedSizeLo"], x["RemainingSizeLo"], it.pz))
        for x in q + h:
            it = known[x["NZBID"]]
            it.names = [x["NZBName"]]; it.cat = [x["Category"]]
            if x in q:
                it.prio = [x["MaxPriority"]]
                if len(it.pz) > 1: it.pz = [x["PausedSizeLo"] == x["RemainingSizeLo"]] if x["RemainingSizeLo"] else it.pz

    def act(limit):
        """adds and edits items until killed, or until nothing more happens"""
        for it in items:
            if it.state == "new": append(it)
            if s.bool(0.3) and it.state == "in": edit(it)
        for _ in range(s.n(4)):
            c = [it for it in items if it.state == "in"]
            edit(s.choice(c))
        end = time.time() + limit
        while time.time() < end:
            if d.proc.poll() is not None: raise Died()
            if all(g["PausedSizeLo"] == g["RemainingSizeLo"] and g["Status"] in ("PAUSED", "QUEUED") for g in d.rpc("listgroups", 0)) : break
            time.sleep(0.01)

    try:
        s.list(item, 1, 4, 0.5)
        s.notes.append(dict(opts=opts, items=[(it.name, it.paused, [(p.name, len(p.data), len(p.parts)) for p in it.posts]) for it in items]))
        s.notes.append(log)
        timer = None
        for r in range(rounds):
            how = s.weighted([(4, "op"), (1, "time")])
            n = s.size(1, 500, (20, 50, 100, 200)) if how == "op" else s.int(1, 250)
            fs_set(n if how == "op" else 0)
            log.append("kill at operation %d" % n if how == "op" else "kill after %d ms" % n)
            try:
                # a kill during the start itself is one of the possibilities
                d.start(wait=False)
                if how == "time":
                    p = d.proc
                    timer = threading.Timer(n / 1000.0, lambda p=p: os.killpg(p.pid, signal.SIGKILL)); timer.start()
                try: d.wait_up()
                except Fail:
                    if d.proc.poll() == -9: raise Died()
                    raise
                if r: look()
                act(6)
                if how == "time": timer.join()
            except KILLED as e:
                time.sleep(0.02)
                try: rc = d.proc.wait(3)
                except Exception: rc = None
                if rc is None: raise
                if rc != -9 or d.sanitizer(): raise Fail("crash (code %s) after %s: %s" % (rc, "; ".join(log), d.tail()))
                kills[0] += 1; log.append("killed")
            except Fail:
                if d.proc.poll() == -9: kills[0] += 1; log.append("killed")
                else: raise
            d.kill()
        at = fs_at()
        fs = open(fso, "r+b"); fs.seek(8); fs.write(bytes(8)); fs.close()
        d.start()
        look()
        for it in items:
            if it.state == "new": append(it)
        d.rpc("editqueue", "GroupResume", "", [it.id for it in items])
        for it in items:
            h = d.wait_history(it.id, 40)
            what = "item %d (%s) after %s: " % (it.id, it.name, "; ".join(log))
            if not h["Status"].startswith("SUCCESS"): raise Fail(what + "status %s, health %s, %s" % (h["Status"], h["Health"], d.tail(2500)))
            dd = os.path.join(d.p("dst"), *([it.cat[-1]] if it.cat[-1] else []))
            got = tree(h["DestDir"])
            if not got: got = tree(os.path.join(dd, it.names[-1]))      # killed after the files were moved: the record still names the old place
            for p in it.posts:
                if p.name not in got:
                    # killed after the file was stored but before this was noted: it is downloaded again, the first one may have been left in a directory named before
                    stem, ext = os.path.splitext(p.name)
                    again = [f for f in got if f.startswith(stem + ".duplicate") and f.endswith(ext) and got[f] == p.data]
                    if again: got[p.name] = got.pop(again[0])
                if p.name not in got: raise Fail(what + "file %r is missing in %s; there are %s; %s" % (p.name, h["DestDir"], sorted(got), d.tail(2500)))
                if got[p.name] != p.data: raise Fail(what + "file %r differs: %d bytes, posted %d" % (p.name, len(got[p.name]), len(p.data)))
            more = sorted(set(got) - {p.name for p in it.posts})
            for f in more:
                if got[f] not in [p.data for p in it.posts]: raise Fail(what + "damaged additional file %s" % f)
            if more: s.notes.append("additional files %s" % more)
        ids = [x["NZBID"] for x in d.rpc("listgroups", 0)] + [x["NZBID"] for x in d.rpc("history", False)]
        if d.rpc("scan", True): pass
        names = {x["NZBID"]: x["NZBName"] for x in d.rpc("listgroups", 0) + d.rpc("history", False)}
        ids = [i for i in ids if i not in extra and not (names.get(i) in tried and i not in [it.id for it in items])]
        if sorted(ids) != sorted(it.id for it in items): raise Fail("in the end there are items %s, expected %s" % (sorted(ids), sorted(it.id for it in items)))
        d.stop()
    except Skip:
        pass
    except (OSError, http.client.HTTPException):
        time.sleep(0.3)
        if d.proc is not None and (d.proc.poll() is not None or d.sanitizer()): raise Fail("the program died (code %s) after %s: %s" % (d.proc.poll(), "; ".join(log), d.tail()))
        raise
    finally:
        d.close()
    return dict(nontrivial=kills[0] > 0, steps=kills[0], labels=opts[:2] + ["kills=%d" % kills[0]] + (["more files"] if any(isinstance(x, str) and x.startswith("add") for x in s.notes) else []), sample=log)


class Skip(Exception):
    pass
