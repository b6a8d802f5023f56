"""A model of the download queue for the queue-editing properties (C12, C13)."""
import base64, copy, os, shutil, struct, subprocess, threading, time
from gen import Fail
import e2e
from e2e import Daemon, Hub, Post, nzb_doc, tree

BASES = ["alpha", "beta.x", "Gamma", "delta 1", "ünï"]
CATS = ["", "Movies", "TV", "Säries", "nocat"]
def nice(n):
    n = n.replace("\\", "/").rsplit("/", 1)[-1]
    for c in '\\/:*?"><\n\r\t|': n = n.replace(c, "_")
    if n and not n.rstrip(". "): n = "_"
    return n.rstrip(". ") or "_"


NAMES = ["first", "Second", "a b", "ünïcode", "x&y<z>\"q\"", "it's", "item.1", "ITEM.1", "0", "back\\", "first", "end. ", "..", "x/", "a/b/../up"]
KEEPS = {"\\": "_"}


def key_family(name):
    """(is par, set or base, rank)"""
    return name.endswith(".par2")


class MFile:
    def __init__(self, name, arts, par, date):
        self.name, self.arts, self.par, self.date = name, arts, par, date      # arts: [size, state] with state None/'ok'/'bad'/'lost'(not in nzb)
        self.paused = False
        self.id = None
        self.size = sum(a[0] for a in arts)
    def remaining(self): return sum(a[0] for a in self.arts if a[1] is None)
    def missed(self): return sum(a[0] for a in self.arts if a[1] == "lost")
    def ok(self): return sum(1 for a in self.arts if a[1] == "ok")
    def bad(self): return sum(1 for a in self.arts if a[1] in ("bad", "lost"))
    def done(self): return all(a[1] is not None for a in self.arts)
    def okbytes(self): return sum(a[0] for a in self.arts if a[1] == "ok")
    def badbytes(self): return sum(a[0] for a in self.arts if a[1] in ("bad", "lost"))


class MItem:
    def __init__(self, name):
        self.name = name
        self.files, self.completed = [], []
        self.cat = ""; self.prio = 0; self.params = []
        self.dupekey = ""; self.dupescore = 0; self.dupemode = "FORCE"
        self.id = None
        self.split = False
    def total(self): return sum(f.size for f in self.files + self.completed)
    def parsize(self): return sum(f.size for f in self.files + self.completed if f.par)


def setparam(params, n, v):
    for i, (k, _) in enumerate(params):
        if k.lower() == n.lower():
            if v == "": del params[i]
            else: params[i] = (k, v)
            return
    if v != "": params.append((n, v))


def move(lst, sel, off):
    """moves the selected elements by off keeping their order; they pile up at the ends"""
    if off == 0: return
    n = len(lst)
    idx = [i for i, x in enumerate(lst) if x in sel]
    orig = list(lst)
    if off < 0:
        floor = -1
        for i in idx:
            p = max(i + off, floor + 1); floor = p
            x = orig[i]; lst.remove(x); lst.insert(p, x)
    else:
        ceil = n
        for i in reversed(idx):
            p = min(i + off, ceil - 1); ceil = p
            x = orig[i]; lst.remove(x); lst.insert(p, x)


def align(lst, sel):
    """selected elements gathered behind the first of them"""
    s = [x for x in lst if x in sel]
    if not s: return
    k = lst.index(s[0])
    rest = [x for x in lst if x not in sel]
    head = [x for x in lst[:k] if x not in sel]
    lst[:] = head + s + rest[len(head):]


class World:
    """The program with a paused queue, reused by many cases."""
    OPTS = ["Category1.Name=Movies", "Category1.Unpack=yes", "Category1.Extensions=", "Category2.Name=TV", "Category2.Unpack=no",
            "ReorderFiles=no", "KeepHistory=30", "ParCheck=auto", "DupeCheck=yes", "ArticleCache=0", "HealthCheck=none"]

    def __init__(self, ctx):
        self.ctx = ctx; self.hub = Hub(); self.hub.add_server(); self.d = None; self.uses = 0

    def daemon(self):
        if self.d is not None and self.uses < 60: self.uses += 1; return self.d
        self.drop()
        self.d = Daemon(self.ctx, self.hub, name="w", opts=self.OPTS, servers=["Server1.Host=127.0.0.1", "Server1.Port=%d" % self.hub.servers[0].port,
            "Server1.Connections=3", "Server1.Username=", "Server1.Password="]).start()
        self.d.rpc("pausedownload"); self.uses = 0
        return self.d

    def clean(self):
        d = self.d
        ids = [g["NZBID"] for g in d.rpc("listgroups", 0)]
        d.rpc("pausedownload")
        if ids: d.rpc("editqueue", "GroupFinalDelete", "", ids)
        d.wait(lambda: not d.rpc("listgroups", 0), "queue emptied")
        h = [x["NZBID"] for x in d.rpc("history", True)]
        if h: d.rpc("editqueue", "HistoryFinalDelete", "", h)
        for n in ("dst", "inter"):
            for x in os.listdir(d.p(n)): shutil.rmtree(d.p(n, x), ignore_errors=True)

    def drop(self, proper=True):
        if self.d is not None:
            d, self.d = self.d, None
            try:
                if proper: d.stop()
            finally: d.close()

    def close(self):
        try: self.drop()
        except Fail: pass
        self.hub.close()


def gen_item(s, hub, k, lossy):
    raw = "item %d" % k if s.bool(0.5) else s.choice(NAMES)
    it = MItem(nice(raw)); it.raw = raw
    posts, entries = [], []
    used = set()
    def onefile():
        base = s.choice(BASES[:3])
        kind = s.weighted([(4, "data"), (2, "rar"), (2, "par"), (3, "vol")])
        if kind == "data": n = base + ".%03d" % s.n(30)
        elif kind == "rar": n = base + s.choice([".rar", ".r00", ".r01", ".r02"])
        elif kind == "par": n = base + ".par2"
        else: n = base + ".vol%02d+%d.PAR2" % (s.n(9), s.n(5)) if s.bool(0.15) else base + ".vol%02d+%d.par2" % (s.n(9), s.n(5))
        if n.lower() in used: return
        used.add(n.lower())
        na = s.int(1, 4) if s.bool(0.6) else 1
        sizes = [s.int(2000, 9000) for _ in range(na)]
        date = 1400000000 - s.n(500) * 86400
        segs, arts = [], []
        data = s.blob(sum(300 + 10 * j for j in range(na)))
        cuts, p = [], 0
        for j in range(na - 1): p += 300 + 10 * j; cuts.append(p)
        post = Post(hub, "q%df%d" % (k, len(entries)), n, data, cuts)
        lost = [na > 1 and j < na - 1 and lossy and s.bool(0.12) for j in range(na)]
        for j in range(na):
            mid = post.parts[j][2]
            if lost[j]: continue
            segs.append((j + 1, sizes[j], mid))
            if lossy and s.bool(0.15): hub.behave[mid] = [("missing",)]
        # absent numbers count with the size of the first part present
        first = segs[0][1]
        arts = [[first if lost[j] else sizes[j], "lost" if lost[j] else None, post.parts[j][2]] for j in range(na)]
        f = MFile(n, arts, n.lower().endswith(".par2"), date)
        posts.append(post); entries.append(dict(post.entry, segs=segs, date=date, subject='"%s" yEnc (1/%d)' % (n, na)))
        it.files.append(f)
    onefile()
    s.list(lambda: onefile(), 0, 7, 0.8)
    it.doc = nzb_doc(entries); it.posts = {p.name: p for p in posts}
    it.cat = s.choice(CATS); it.prio = s.choice([0, 0, 50, -100, 100, 899]); it.dupekey = s.choice(["", "k1", "k2"]); it.dupescore = s.choice([0, 5, -7])
    return it


def add(s, d, model, it):
    top = s.bool(0.2); paused = s.bool(0.3)
    params = [(n, v) for n, v in [("p1", "v 1"), ("x:y", "ü&<")] if s.bool(0.3)]
    it.id = d.append(it.raw + ".nzb", it.doc, it.cat, it.prio, top, paused, it.dupekey, it.dupescore, "FORCE", params)
    if it.id <= 0: raise Fail("append refused")
    extra_pause(it.files)
    if paused:
        for f in it.files: f.paused = True
    if top: model.insert(0, it)
    else: model.append(it)
    fs = d.rpc("listfiles", 0, 0, it.id)
    byname = {}
    for x in fs: byname.setdefault(x["Filename"], []).append(x["ID"])
    for f in it.files:
        if not byname.get(f.name): raise Fail("file %r of a new item is not listed: %s" % (f.name, [x["Filename"] for x in fs]))
        f.id = byname[f.name].pop()
    g = [x for x in d.rpc("listgroups", 0) if x["NZBID"] == it.id][0]
    it.params = [(p["Name"], p["Value"]) for p in g["Parameters"]]
    for n, v in params:
        if (n, v) not in it.params: raise Fail("parameter %r=%r of the append call became %r" % (n, v, it.params))


def extra_pause(files):
    """pauses surplus par volumes"""
    pars = [f for f in files if f.par]
    base = [f for f in pars if ".vol" not in f.name.lower()]
    vols = [f for f in pars if ".vol" in f.name.lower()]
    if base:
        for f in vols: f.paused = True
    elif vols:
        m = min(f.size for f in vols)
        keep = next(f for f in vols if f.size == m)
        for f in vols:
            if f is not keep: f.paused = True


def compare(d, model, what, totals, order_free=()):
    gs = d.rpc("listgroups", 0)
    fs = d.rpc("listfiles", 0, 0, 0)
    def bad(m): raise Fail("after %s: %s" % (what, m))
    if [g["NZBID"] for g in gs] != [m.id for m in model]:
        bad("the queue is %s, expected %s" % ([(g["NZBID"], g["NZBName"]) for g in gs], [(m.id, m.name) for m in model]))
    by = {}
    for f in fs: by.setdefault(f["NZBID"], []).append(f)
    for g, m in zip(gs, model):
        lf = by.get(m.id, [])
        def eq(n, want, got=None):
            got = g[n] if got is None else got
            if got != want: bad("item %s (%d): %s is %r, expected %r" % (m.name, m.id, n, got, want))
        if not totals:
            eq("NZBName", m.name); eq("Category", m.cat); eq("MaxPriority", m.prio); eq("DupeKey", m.dupekey); eq("DupeScore", m.dupescore); eq("DupeMode", m.dupemode)
            eq("Parameters", m.params, [(p["Name"], p["Value"]) for p in g["Parameters"]])
            eq("DestDir", os.path.join(d.p("inter"), "%s.#%d" % (m.name, m.id)))
            got, want = [(f["ID"], f["Filename"], f["Paused"]) for f in lf], [(f.id, f.name, f.paused) for f in m.files]
            if m.id in order_free: got.sort(); want.sort()
            if got != want: bad("files of item %s (%d) are %s, expected %s" % (m.name, m.id, got, want))
        else:
            S = lambda n: (g[n + "Hi"] << 32) + g[n + "Lo"]
            allf = m.files + m.completed
            eq("FileSize", m.total(), S("FileSize"))
            eq("RemainingSize", sum(f.remaining() for f in m.files), S("RemainingSize"))
            eq("PausedSize", sum(f.remaining() for f in m.files if f.paused), S("PausedSize"))
            eq("RemainingFileCount", len(m.files)); eq("FileCount", len(allf)); eq("RemainingParCount", sum(f.par for f in m.files))
            eq("TotalArticles", sum(len(f.arts) for f in allf)); eq("SuccessArticles", sum(f.ok() for f in allf)); eq("FailedArticles", sum(f.bad() for f in allf))
            eq("ActiveDownloads", 0)
            fail = sum(f.badbytes() for f in allf if not f.par); size = sum(f.size for f in allf if not f.par)
            anyfail = sum(f.badbytes() for f in allf)
            h = 1000 if anyfail == 0 or size == 0 else (size - fail) * 1000 // size
            if h == 1000 and fail > 0 and size: h = 999
            eq("Health", h)
            for f in lf:
                mf = [x for x in m.files if x.id == f["ID"]]
                if not mf: bad("unknown file %s" % f["ID"])
                sz, rm = (f["FileSizeHi"] << 32) + f["FileSizeLo"], (f["RemainingSizeHi"] << 32) + f["RemainingSizeLo"]
                if (sz, rm, f["ActiveDownloads"]) != (mf[0].size, mf[0].remaining(), 0):
                    bad("file %s of item %s: size, remaining, active are %s, expected %s" % (mf[0].name, m.name, (sz, rm, f["ActiveDownloads"]), (mf[0].size, mf[0].remaining(), 0)))
    if totals:
        st = d.rpc("status")
        want = sum(f.remaining() for m in model for f in m.files if not f.paused)
        got = (st["RemainingSizeHi"] << 32) + st["RemainingSizeLo"]
        if got != want: bad("RemainingSize of status is %d, expected %d" % (got, want))
        want = sum(f.remaining() for m in model for f in m.files if not f.paused and m.prio >= 900)
        got = (st["ForcedSizeHi"] << 32) + st["ForcedSizeLo"]
        if got != want: bad("ForcedSize of status is %d, expected %d" % (got, want))


def sort_model(model, sel, crit):
    c, o = crit.lower(), ""
    if c[-1] in "+-": c, o = c[:-1], c[-1]
    key = {"name": lambda m: m.name.encode("utf8"), "size": lambda m: m.total(), "left": lambda m: sum(f.remaining() for f in m.files if not f.paused),
           "age": lambda m: -m.shown, "category": lambda m: m.cat.encode("utf8"), "priority": lambda m: m.prio}[c]
    if sel: align(model, sel)
    s = [m for m in model if m in sel] if sel else list(model)
    k = model.index(s[0]) if s else 0
    def srt(desc):
        r = list(s)
        r.sort(key=key)
        if desc:   # stable in descending order
            r = sorted(s, key=key, reverse=True)
        return r
    desc = o == "-" or (o == "" and c == "priority")
    r = srt(desc)
    if o == "" and r == s: r = srt(not desc)
    model[k:k + len(s)] = r


def sortfiles_ok(before, after):
    """the order SortFiles has to give: data before par files, data by name (.rar before .rNN), par files of one set by size"""
    if sorted(map(id, before)) != sorted(map(id, after)): return "files lost or doubled"
    pars = [f.par for f in after]
    if pars != sorted(pars): return "par files before other files"
    def k(f):
        n = f.name
        if n.endswith(".rar"): n = n[:-4] + ".r"
        return n.encode("utf8")
    data = [f for f in after if not f.par]
    if [k(f) for f in data] != sorted(k(f) for f in data): return "data files not by name: %s" % [f.name for f in data]
    sets = {}
    for f in after:
        if f.par: sets.setdefault(f.name.lower().split(".vol")[0].replace(".par2", ""), []).append(f.size)
    for b, z in sets.items():
        if z != sorted(z): return "par files of set %s not by size" % b
    return None


# ---------------------------------------------------------------- binary protocol (selection by name or pattern)
ACTIONS = {n: i + 1 for i, n in enumerate("""FileMoveOffset FileMoveTop FileMoveBottom FilePause FileResume FileDelete FilePauseAllPars FilePauseExtraPars FileReorder FileSplit
GroupMoveOffset GroupMoveTop GroupMoveBottom GroupMoveBefore GroupMoveAfter GroupPause GroupResume GroupDelete GroupParkDelete GroupDupeDelete GroupFinalDelete
GroupPauseAllPars GroupPauseExtraPars GroupSetPriority GroupSetCategory GroupApplyCategory GroupMerge GroupSetParameter GroupSetName GroupSetDupeKey GroupSetDupeScore
GroupSetDupeMode GroupSort GroupSortFiles""".split())}


def edit_names(d, action, arg, names, mode):
    """the binary edit request with names (mode 2) or regular expressions (mode 3)"""
    import socket
    off = int(arg) if action.endswith("MoveOffset") else 0
    text = arg.encode("utf8") + b"\0"
    nm = b"".join(n.encode("utf8") + b"\0" for n in names)
    pad = -(len(text)) % 4
    text += b"\0" * pad
    nm += b"\0" * (-len(nm) % 4)
    body = text + nm
    hdr = struct.pack(">iii32s32s", 0x6E7A6231, 76 + 32, 6, b"nzbget", b"")
    hdr += struct.pack(">iiiiiiiI", ACTIONS[action], off, mode, 0, len(names), len(nm), len(text), len(body))
    c = socket.socket(socket.AF_UNIX); c.settimeout(60)
    try:
        c.connect(d.sockpath); c.sendall(hdr + body)
        r = b""
        while len(r) < 16:
            try: x = c.recv(4096)
            except OSError: break
            if not x: break
            r += x
    finally: c.close()
    if len(r) < 16: raise Fail("no answer to a binary request %s %r %s: %r %s" % (action, arg, names, r, d.tail()))
    return bool(struct.unpack(">i", r[8:12])[0])


class Ops:
    """Generates edit commands, sends them and changes the model alike."""
    def __init__(self, s, d, model, hub, lossy, addfn):
        self.s, self.d, self.model, self.hub, self.lossy, self.addfn = s, d, model, hub, lossy, addfn
        self.gone = []      # (id, how)
        self.unordered = {} # items whose file order is only checked by rules
        self.count = 0

    def pick_items(self, lo=1):
        s = self.s
        r = [m for m in self.model if s.bool(0.4)]
        if len(r) < lo and self.model: r = [s.choice(self.model)]
        return s.shuffle(r)

    def pick_files(self, one=None):
        s = self.s
        items = [one] if one else [m for m in self.model if s.bool(0.6)] or self.model[:1]
        r = [f for m in items for f in m.files if s.bool(0.4)]
        if not r and items and items[0].files: r = [s.choice(items[0].files)]
        return s.shuffle(r)

    def owner(self, f): return next(m for m in self.model if f in m.files)

    def run(self):
        """one command; returns its description"""
        s, d, model = self.s, self.d, self.model
        cmd = s.weighted([(3, "FileMoveOffset"), (1, "FileMoveTop"), (1, "FileMoveBottom"), (2, "FilePause"), (2, "FileResume"), (3, "FileDelete"), (1, "FilePauseAllPars"),
            (1, "FilePauseExtraPars"), (2, "FileReorder"), (3, "FileSplit"), (3, "GroupMoveOffset"), (1, "GroupMoveTop"), (1, "GroupMoveBottom"), (2, "GroupMoveBefore"), (2, "GroupMoveAfter"),
            (1, "GroupPause"), (1, "GroupResume"), (1, "GroupDelete"), (1, "GroupParkDelete"), (1, "GroupDupeDelete"), (1, "GroupFinalDelete"), (1, "GroupPauseAllPars"), (1, "GroupPauseExtraPars"),
            (1, "GroupSetPriority"), (2, "GroupSetCategory"), (2, "GroupApplyCategory"), (3, "GroupMerge"), (2, "GroupSetParameter"), (2, "GroupSetName"), (1, "GroupSetDupeKey"),
            (1, "GroupSetDupeScore"), (1, "GroupSetDupeMode"), (3, "GroupSort"), (2, "GroupSortFiles"), (3, "add")])
        self.count += 1
        if cmd == "add" or not model:
            it = self.addfn(); return "append %s" % it.name
        isfile = cmd.startswith("File")
        arg = ""
        # selection
        unknown = s.bool(0.06)
        if unknown: sel = []
        elif isfile: sel = self.pick_files(s.choice(model) if s.bool(0.5) else None)
        else: sel = self.pick_items()
        ids = [x.id for x in sel]
        if unknown: ids = [s.choice([999999, 0, -1, 2000000000])]
        elif s.bool(0.1): ids.insert(s.n(len(ids)), s.choice([999999, 0, -5]))   # one unknown among known ones
        if ids and s.bool(0.1): ids.append(s.choice(ids))                        # one of them twice
        # argument
        if cmd.endswith("MoveOffset"): off = s.choice([1, -1, 2, -2, 3, 0, 10, -10, 100]); arg = str(off)
        elif cmd.endswith("MoveTop"): off = -10**6
        elif cmd.endswith("MoveBottom"): off = 10**6
        elif cmd in ("GroupMoveBefore", "GroupMoveAfter"):
            tgt = s.choice(model) if not s.bool(0.05) else None
            arg = str(tgt.id if tgt else 888888)
        elif cmd == "FileSplit": arg = s.choice(["split", "sp ü", "s&p", "first", "../up", ""])
        elif cmd == "GroupSetPriority": arg = s.choice(["0", "50", "-100", "899", "7"])
        elif cmd in ("GroupSetCategory", "GroupApplyCategory"): arg = s.choice(CATS)
        elif cmd == "GroupSetParameter": arg = s.choice(["p1=", "p1=new", "P1=x", "q=a=b", "ü=ä&<\"'", "*Unpack:=no", "noequal", "z= sp "])
        elif cmd == "GroupSetName": arg = s.choice(NAMES)
        elif cmd == "GroupSetDupeKey": arg = s.choice(["", "key", "k<&>ü"])
        elif cmd == "GroupSetDupeScore": arg = s.choice(["0", "100", "-100"])
        elif cmd == "GroupSetDupeMode": arg = s.choice(["SCORE", "all", "FORCE", "wrong"])
        elif cmd == "GroupSort": arg = s.choice(["name", "size", "left", "age", "category", "priority"]) + s.choice(["", "+", "-"])
        # by name or pattern
        mode = 1
        if not unknown and s.bool(0.12) and cmd not in ("GroupMoveBefore", "GroupMoveAfter", "GroupMerge", "FileReorder", "FileSplit"):
            mode = s.choice([2, 3])
            if mode == 2:
                names = [self.owner(x).name + "/" + x.name if isfile else x.name for x in sel[:2]]
                if s.bool(0.2): names.insert(s.n(len(names)), "nosuchthing")
            else: names = [s.choice(["i", "^item", "[0-9]+$", "alpha", "nosuch", ".*"])]
            import re
            allx = [(m.name + "/" + f.name, f) for m in model for f in m.files] if isfile else [(m.name, m) for m in model]
            sel, missing = [], False
            for n in names:
                hit = [x for (k, x) in allx if (k == n if mode == 2 else re.search(n, k, re.I)) and x not in sel]
                # a name that selects nothing new counts as not found
                if not hit and mode == 2: missing = True; break
                sel += hit
            if missing: sel = []
        desc = "%s %r %s" % (cmd, arg, ids if mode == 1 else (mode, names))
        if cmd == "GroupSort" and arg.startswith("age"):
            # the age of an item some files of which are gone is left open, the shown one is used
            shown = {g["NZBID"]: g["MinPostTime"] for g in d.rpc("listgroups", 0)}
            for m in model: m.shown = shown.get(m.id, 0)
        if mode == 1: r = d.rpc("editqueue", cmd, arg, ids)
        else: r = edit_names(d, cmd, arg, names, mode)
        uniq = []
        for x in sel:
            if x not in uniq: uniq.append(x)
        self.apply(cmd, arg, uniq, locals().get("off", 0), locals().get("tgt"), desc)
        if mode == 1 and not sel and r and cmd not in ("GroupMoveBefore",): raise Fail("%s: reported as done" % desc)
        return desc

    def apply(self, cmd, arg, sel, off, tgt, desc):
        s, d, model = self.s, self.d, self.model
        if not sel: return
        if cmd in ("FileMoveOffset", "FileMoveTop", "FileMoveBottom"):
            for m in model: move(m.files, [f for f in m.files if f in sel], off)
        elif cmd in ("FilePause", "FileResume"):
            for f in sel: f.paused = cmd == "FilePause"
        elif cmd == "FileDelete": self.delete_files(sel)
        elif cmd in ("FilePauseAllPars", "FilePauseExtraPars"):
            for m in model:
                fs = [f for f in sel if f in m.files]
                if cmd == "FilePauseExtraPars": extra_pause(fs)
                else:
                    for f in fs:
                        if f.par: f.paused = True
        elif cmd == "FileReorder":
            m = self.owner(sel[0]); fs = [f for f in sel if f in m.files]
            m.files[:] = fs + [f for f in m.files if f not in fs]
        elif cmd == "FileSplit": self.split(sel, arg, desc)
        elif cmd in ("GroupMoveOffset", "GroupMoveTop", "GroupMoveBottom"): move(model, sel, off)
        elif cmd in ("GroupMoveBefore", "GroupMoveAfter"):
            if tgt is None: return self.resync(desc, set(map(id, sel)))
            before = cmd == "GroupMoveBefore"
            if tgt in sel:
                k = model.index(tgt)
                nxt = [m for m in model[k + 1:] if m not in sel]
                if nxt: tgt, before = nxt[0], True
                else: tgt = None
            block = [m for m in model if m in sel]
            rest = [m for m in model if m not in sel]
            p = len(rest) if tgt is None else rest.index(tgt) + (0 if before else 1)
            model[:] = rest[:p] + block + rest[p:]
        elif cmd in ("GroupPause", "GroupResume"):
            for m in sel:
                for f in m.files: f.paused = cmd == "GroupPause"
        elif cmd in ("GroupDelete", "GroupParkDelete", "GroupDupeDelete", "GroupFinalDelete"):
            for m in sel: self.gone.append((m.id, cmd)); model.remove(m)
        elif cmd in ("GroupPauseAllPars", "GroupPauseExtraPars"):
            for m in sel:
                if cmd == "GroupPauseExtraPars": extra_pause(m.files)
                else:
                    for f in m.files:
                        if f.par: f.paused = True
        elif cmd == "GroupSetPriority":
            for m in sel: m.prio = int(arg)
        elif cmd in ("GroupSetCategory", "GroupApplyCategory"):
            for m in sel:
                old, m.cat = m.cat, arg
                if cmd == "GroupApplyCategory":
                    unp = lambda c: c == "Movies"      # Unpack=no otherwise
                    if unp(old) != unp(arg): setparam(m.params, "*Unpack:", "yes" if unp(arg) else "no")
        elif cmd == "GroupMerge":
            dst = sel[0]
            for m in sel[1:]:
                dst.files += m.files; dst.completed += m.completed; dst.split |= m.split
                model.remove(m)
        elif cmd == "GroupSetParameter":
            if "=" in arg:
                n, v = arg.split("=", 1)
                for m in sel: setparam(m.params, n, v)
        elif cmd == "GroupSetName":
            for m in sel: m.name = nice(arg)
        elif cmd == "GroupSetDupeKey":
            for m in sel: m.dupekey = arg
        elif cmd == "GroupSetDupeScore":
            for m in sel: m.dupescore = int(arg)
        elif cmd == "GroupSetDupeMode":
            if arg.upper() in ("SCORE", "ALL", "FORCE"):
                for m in sel: m.dupemode = arg.upper()
        elif cmd == "GroupSort": sort_model(model, sel, arg)
        elif cmd == "GroupSortFiles":
            lf = d.rpc("listfiles", 0, 0, 0)
            for m in sel:
                by = {f.id: f for f in m.files}
                got = [f["ID"] for f in lf if f["NZBID"] == m.id]
                if sorted(got) != sorted(by): raise Fail("after %s: files of item %s are %s, expected %s" % (desc, m.id, sorted(got), sorted(by)))
                new = [by[i] for i in got]
                e = sortfiles_ok(m.files, new)
                if e: raise Fail("after %s: item %s: %s; %s" % (desc, m.id, e, [f.name for f in new]))
                m.files[:] = new

    def resync(self, desc, selids):
        """target unknown: which place they get is not specified, but nothing may be lost"""
        gs = self.d.rpc("listgroups", 0)
        by = {m.id: m for m in self.model}
        if sorted(by) != sorted(g["NZBID"] for g in gs): raise Fail("after %s: items lost" % desc)
        rest0 = [m.id for m in self.model if id(m) not in selids]
        new = [by[g["NZBID"]] for g in gs]
        if [m.id for m in new if id(m) not in selids] != rest0: raise Fail("after %s: other items changed places" % desc)
        self.model[:] = new

    def delete_files(self, sel):
        for m in list(self.model):
            mine = [f for f in sel if f in m.files]
            if not mine: continue
            m.files[:] = [f for f in m.files if f not in mine]
            if not m.files: self.gone.append((m.id, "FileDelete")); self.model.remove(m)

    def split(self, sel, name, desc):
        m = self.owner(sel[0])
        if name == "" or any(self.owner(f) is not m for f in sel) or any(a[1] in ("ok", "bad") for f in sel for a in f.arts):
            # not possible: nothing may change
            return
        n = MItem(nice(name)); n.cat, n.prio, n.params = m.cat, m.prio, list(m.params); n.dupemode = "SCORE"; n.split = True
        m.split = bool(m.completed) or m.split
        n.files = list(sel)
        m.files[:] = [f for f in m.files if f not in sel]
        if not m.files: self.model.remove(m)
        g = self.d.rpc("listgroups", 0)
        new = [x for x in g if x["NZBID"] not in {x.id for x in self.model}]
        if len(new) != 1: raise Fail("after %s: new items are %s" % (desc, [(x["NZBID"], x["NZBName"]) for x in new]))
        n.id = new[0]["NZBID"]
        n.split = False
        self.model.append(n)
