"""C04: completed downloads are byte-identical to what was posted."""
import os
from gen import Fail
import e2e
from e2e import Case, Hub, Post, nzb_doc, tree
prepare = e2e.prepare
ID = "C04"
LEVEL = "exploration"
RULE = ("one case = one run of the program with random storage options downloading 1-4 random items of 1-6 files each "
        "cut into uneven articles; non-trivial when at least one file has two or more articles and content was compared")
QUICK, THOROUGH = 180, 4000
SHRINK = 60
NAMES = ["a.bin", "file one.rar", "data.001", "b.mkv", "Big.File.name.r00", "ünï çødé.bin", "x.nfo", "c d (1).zip", "archive.7z", "k.mp3"]


def setup(ctx):
    h = Hub()
    h.add_server(); h.add_server()
    class E:
        hub = h
        def close(self): h.close()
    return E()


def gen_opts(s):
    o = []
    o.append("DirectWrite=" + s.choice(["yes", "no"]))
    o.append("ArticleCache=%d" % s.choice([0, 1, 1, 64, 200]))
    o.append("WriteBuffer=%d" % s.choice([0, 1, 3, 64, 1024]))
    o.append("CrcCheck=" + s.choice(["yes", "no"]))
    o.append("InterDir=" + s.choice(["${MainDir}/inter", ""]))
    o.append("ContinuePartial=" + s.choice(["yes", "no"]))
    o.append("DirectRename=" + s.weighted([(3, "no"), (1, "yes")]))
    o.append("FileNaming=" + s.choice(["auto", "article", "nzb"]))
    o.append("ReorderFiles=" + s.choice(["yes", "no"]))
    o.append("FlushQueue=" + s.choice(["no", "yes"]))
    o.append("ParCheck=" + s.choice(["manual", "auto"]))
    o.append("AppendCategoryDir=" + s.choice(["yes", "no"]))
    return o


def case(s, ctx):
    hub = ctx.env.hub
    hub.reset()
    opts = gen_opts(s)
    nsrv = s.int(1, 2)
    conns = s.choice([4, 1, 2, 8, 16])
    srv = []
    for i in range(nsrv):
        srv += ["Server%d.Host=127.0.0.1" % (i + 1), "Server%d.Port=%d" % (i + 1, hub.servers[i].port),
                "Server%d.Connections=%d" % (i + 1, conns), "Server%d.Username=%s" % (i + 1, s.choice(["", "u"])), "Server%d.Password=p" % (i + 1),
                "Server%d.JoinGroup=%s" % (i + 1, s.choice(["no", "yes"]))]
    if s.bool(0.4):
        hub.fragments = [s.choice([1, 2, 3, 7, 100, 1000, 1023, 1024, 1025, 5000]) for _ in range(s.int(1, 5))]
        hub.fragment_sleep = s.choice([0, 0.0005])
    items, multi = [], 0
    def item():
        k = len(items)
        names = s.shuffle(NAMES)[:s.int(1, 6)]
        posts = []
        cat = s.choice(["", "", "Movies"])
        for fi, nm in enumerate(names):
            enc = s.weighted([(6, "yenc"), (1, "uu")])
            size = s.size(1, 40000, (128, 1024, 4096, 10000, 16384, 32768))
            data = s.blob(size)
            ncut = s.n(min(8, size - 1)) if enc == "yenc" else 0
            cuts = sorted({s.int(1, size - 1) for _ in range(ncut)}) if size > 1 else []
            p = Post(hub, "i%df%d" % (k, fi), nm, data, cuts, enc, line=s.choice([128, 64, 256, 500, 997]),
                     pcrc=s.choice([True, True, False]),
                     size_attr=s.choice([None, None, None, 1000, 10]) if enc == "yenc" else None)
            posts.append(p)
        entries = [dict(p.entry, segs=(s.shuffle(p.entry["segs"]) if s.bool(0.3) else p.entry["segs"])) for p in posts]
        items.append(dict(name="item %d" % k, posts=posts, cat=cat, doc=nzb_doc(entries), paused=s.bool(0.15)))
        return 1
    s.list(item, 1, 4, 0.5)
    s.notes.append(dict(opts=opts, servers=srv, frag=hub.fragments, items=[[(p.name, len(p.data), [x[3:] for x in p.parts], hub.arts[p.parts[0][2]][:90]) for p in it["posts"]] for it in items]))
    with Case(ctx, hub, opts=opts + ["Category1.Name=Movies", "Category1.Unpack=no"], servers=srv) as d:
        for it in items:
            it["id"] = d.append(it["name"] + ".nzb", it["doc"], it["cat"], 0, False, it["paused"])
            if it["id"] <= 0: raise Fail("append refused %s" % it["name"])
        for it in items:
            if it["paused"]: d.rpc("editqueue", "GroupResume", "", [it["id"]])
        compared = 0
        for it in items:
            h = d.wait_history(it["id"])
            if not h["Status"].startswith("SUCCESS"): raise Fail("item %s: status %s" % (it["name"], h["Status"]))
            n = sum(len(p.parts) for p in it["posts"])
            if h["Health"] != 1000: raise Fail("health %s" % h["Health"])
            if (h["TotalArticles"], h["SuccessArticles"], h["FailedArticles"]) != (n, n, 0):
                raise Fail("articles total/success/failed %s, posted %d" % ((h["TotalArticles"], h["SuccessArticles"], h["FailedArticles"]), n))
            exp = os.path.join(d.p("dst"), *(["Movies"] if it["cat"] and "AppendCategoryDir=yes" in opts else []), it["name"])
            if os.path.realpath(h["DestDir"]) != os.path.realpath(exp): raise Fail("DestDir %s, expected %s" % (h["DestDir"], exp))
            got = tree(h["DestDir"])
            want = {p.name: p.data for p in it["posts"]}
            for f in want:
                if f not in got: raise Fail("item %s: file %r not delivered; there are %s" % (it["name"], f, sorted(got)))
                if got[f] != want[f]:
                    a, b = got[f], want[f]
                    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    raise Fail("item %s: file %r differs at byte %d (lengths %d, posted %d)" % (it["name"], f, i, len(a), len(b)))
                compared += 1
            more = sorted(set(got) - set(want))
            if more: raise Fail("item %s: unexpected files %s" % (it["name"], more))
    multi = sum(1 for it in items for p in it["posts"] if len(p.parts) > 1)
    return dict(nontrivial=multi > 0 and compared > 0, steps=compared,
                labels=[o for o in opts[:7]] + ["items=%d" % len(items), "frag" if hub.fragments else "nofrag"],
                sample=dict(opts=opts, items=[[(p.name, len(p.data), len(p.parts)) for p in it["posts"]] for it in items]))
