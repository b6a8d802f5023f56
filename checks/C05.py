"""C05: losses are accounted exactly and intact data is kept in place."""
import os, zlib
from gen import Fail
import e2e
from e2e import Case, Hub, Post, nzb_doc, tree, yenc, stuff
prepare = e2e.prepare
ID = "C05"
LEVEL = "exploration"
RULE = ("one case = one run of the program with random storage options downloading 1-3 random yEnc items whose articles are intact, missing, damaged in many ways or absent from the NZB on each of 1-2 servers; "
        "non-trivial when at least one article is undeliverable and another one of the same file is delivered")
QUICK, THOROUGH = 150, 5000
SHRINK = 60
NAMES = ["a.bin", "file one.avi", "data.dat", "b.mkv", "Big.File.name.ts", "ünï çødé.bin", "x.nfo", "k.mp3"]
PARS = ["a.par2", "a.vol00+1.par2", "a.vol01+2.par2"]


def setup(ctx):
    h = Hub()
    h.add_server(); h.add_server()
    class E:
        hub = h
        def close(self): h.close()
    return E()


def damage(s, body, crc):
    """an answer which is not the article; every kind listed is noticeable"""
    kinds = ["missing", "missing", "drop", "close", "code", "empty"]
    if crc: kinds += ["flip", "lost", "cut"]
    k = s.choice(kinds)
    if k == "missing": return ("code", s.choice([430, 423, 420, 411]), "no such article")
    if k == "code": return ("code", s.choice([500, 503, 451]), "error")
    if k == "drop": return ("drop", body, s.n(max(1, len(body) - 40)))
    if k == "close": return ("drop", body, 0)
    if k == "empty": return ("raw", b"222 0 <x>\r\n.\r\n")
    lines = body.split(b"\r\n")[:-1]
    first = next(i for i, l in enumerate(lines) if not l.startswith((b"=ybegin", b"=ypart")))
    last = len(lines) - 1
    i = s.int(first, last - 1) if last > first else first
    if k == "flip":
        l = bytearray(lines[i])
        c = [j for j in range(len(l)) if l[j] not in b"=." and (j == 0 or l[j - 1] != 0x3d) and l[j] not in (46, 47)]
        if not c: k = "lost"
        else:
            j = s.choice(c); l[j] = 0x61 if l[j] != 0x61 else 0x62
            lines[i] = bytes(l)
    if k == "lost": del lines[i]
    if k == "cut": del lines[i:last] ; lines.pop()       # no trailer
    return ("ok", b"".join(l + b"\r\n" for l in lines))


def case(s, ctx):
    hub = ctx.env.hub
    hub.reset()
    crc = s.bool(0.8)
    direct = s.bool(0.6)
    opts = ["DirectWrite=" + ("yes" if direct else "no"), "ArticleCache=%d" % s.choice([0, 0, 1, 200]), "WriteBuffer=%d" % s.choice([0, 1, 64]),
            "CrcCheck=" + ("yes" if crc else "no"), "InterDir=" + s.choice(["${MainDir}/inter", ""]), "HealthCheck=none",
            "ArticleRetries=%d" % s.choice([0, 1, 2]), "ParCheck=manual", "ParRename=no", "RarRename=no", "FileNaming=" + s.choice(["auto", "article", "nzb"]),
            "ContinuePartial=" + s.choice(["yes", "no"])]
    nsrv = s.int(1, 2)
    srv = []
    for i in range(nsrv):
        srv += ["Server%d.Host=127.0.0.1" % (i + 1), "Server%d.Port=%d" % (i + 1, hub.servers[i].port), "Server%d.Connections=%d" % (i + 1, s.choice([4, 1, 2, 8])),
                "Server%d.Level=%d" % (i + 1, s.choice([0, i])), "Server%d.JoinGroup=no" % (i + 1)]
    if s.bool(0.3): hub.fragments = [s.choice([1, 3, 100, 1000, 1023, 1024, 1025, 5000]) for _ in range(s.int(1, 4))]
    items = []
    rate = s.choice([0.15, 0.05, 0.4, 0.8])
    def item():
        k = len(items)
        names = s.shuffle(NAMES)[:s.int(1, 4)] + (s.sample(PARS, s.n(3)) if s.bool(0.3) else [])
        files = []
        for fi, nm in enumerate(names):
            size = s.size(1, 40000, (128, 1024, 4096, 10000, 16384, 32768))
            data = s.blob(size)
            ncut = s.n(min(8, size - 1))
            cuts = sorted({s.int(1, size - 1) for _ in range(ncut)}) if size > 1 else []
            p = Post(hub, "i%df%d" % (k, fi), nm, data, cuts, line=s.choice([128, 64, 500]))
            attr = s.choice([None, None, 1000])
            arts, segs = [], []
            for j, (num, sz, mid, b, e) in enumerate(p.parts):
                a = sz if attr is None else attr + j
                # an absent number counts with the size of the first segment present
                if len(p.parts) > 1 and j < len(p.parts) - 1 and s.bool(rate / 5): arts.append([None, "lost", num, b, e, mid]); continue
                segs.append((num, a, mid)); arts.append([a, "ok", num, b, e, mid])
            if not segs: return
            for x in arts:
                if x[0] is None: x[0] = segs[0][1]
            for x in arts:
                if x[1] == "lost": continue
                body = hub.arts[x[5]]
                good = False
                for i in range(nsrv):
                    if s.bool(rate):
                        hub.behave[(i, x[5])] = [damage(s, body, crc)]
                    else: good = True
                if not good: x[1] = "bad"
            files.append(dict(post=p, arts=arts, segs=segs, par=nm.endswith(".par2")))
        items.append(dict(name="item %d" % k, files=files, doc=nzb_doc([dict(f["post"].entry, segs=s.shuffle(f["segs"]) if s.bool(0.3) else f["segs"]) for f in files])))
    s.list(item, 1, 3, 0.5)
    if not items: return dict(nontrivial=False)
    s.notes.append(dict(opts=opts, servers=srv, frag=hub.fragments, items=[[(f["post"].name, len(f["post"].data), [(x[1], x[3], x[4]) for x in f["arts"]]) for f in it["files"]] for it in items],
                        behave={str(k): (v[0][0], len(v[0][1]) if v[0][0] == "ok" else v[0][-1]) for k, v in hub.behave.items()}))
    partial = 0
    with Case(ctx, hub, opts=opts, servers=srv) as d:
        for it in items: it["id"] = d.append(it["name"] + ".nzb", it["doc"])
        for it in items:
            h = d.wait_history(it["id"])
            what = "item %s: " % it["name"]
            allarts = [x for f in it["files"] for x in f["arts"]]
            # par-files which are not needed are not downloaded
            unload = [f for f in it["files"] if f["par"]]
            ok = sum(1 for f in it["files"] for x in f["arts"] if x[1] == "ok" and not f["par"]); bad = sum(1 for f in it["files"] for x in f["arts"] if x[1] != "ok" and not f["par"])
            got = h["TotalArticles"], h["SuccessArticles"], h["FailedArticles"]
            if not unload:
                if got != (len(allarts), ok, bad): raise Fail(what + "articles total/success/failed %s, expected %s" % (got, (len(allarts), ok, bad)))
            size = sum(x[0] for f in it["files"] for x in f["arts"] if not f["par"]); fail = sum(x[0] for f in it["files"] for x in f["arts"] if not f["par"] and x[1] != "ok")
            hl = 1000 if not fail else min(999, (size - fail) * 1000 // size)
            if not any(not f["par"] for f in it["files"]): hl = 1000
            if h["Health"] != hl: raise Fail(what + "health %s, expected %s" % (h["Health"], hl))
            if fail and h["Status"].startswith("SUCCESS"): raise Fail(what + "status %s with %d of %d bytes missing" % (h["Status"], fail, size))
            if not bad and not unload and not h["Status"].startswith("SUCCESS"): raise Fail(what + "status %s though nothing is missing" % h["Status"])
            tree_ = tree(h["DestDir"]) if h["DestDir"] and os.path.isdir(h["DestDir"]) else {}
            log = {}
            for f in it["files"]:
                p = f["post"]; oks = [x for x in f["arts"] if x[1] == "ok"]
                if f["par"] and p.name not in tree_: continue
                got = tree_.get(p.name)
                if oks and got is None: raise Fail(what + "file %r with intact articles %s is missing, there are %s" % (p.name, [x[2] for x in oks], sorted(tree_)))
                for x in oks:
                    if got[x[3]:x[4]] != p.data[x[3]:x[4]]: raise Fail(what + "file %r: bytes %d-%d of the intact article %d are wrong" % (p.name, x[3], x[4], x[2]))
                if got is not None and len(got) > len(p.data): raise Fail(what + "file %r has %d bytes, posted %d" % (p.name, len(got), len(p.data)))
                if len(oks) == len(f["arts"]) and got != p.data: raise Fail(what + "complete file %r differs" % p.name)
                if oks and len(oks) < len(f["arts"]): partial += 1
            more = sorted(set(tree_) - {f["post"].name for f in it["files"]})
            if more: raise Fail(what + "unexpected files %s" % more)
    kinds = {b[0][0] for b in hub.behave.values()}
    return dict(nontrivial=partial > 0, steps=sum(len(f["arts"]) for it in items for f in it["files"]), labels=opts[:4] + sorted(kinds),
                sample=dict(opts=opts, items=[[(f["post"].name, [x[1] for x in f["arts"]]) for f in it["files"]] for it in items]))
