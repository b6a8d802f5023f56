"""C06: an article fails only after every usable server was tried in order."""
import os, time
from gen import Fail
import e2e
from e2e import Case, Hub, Post, nzb_doc, tree
prepare = e2e.prepare
ID = "C06"
LEVEL = "exploration"
RULE = ("one case = one run of the program with 1-6 news servers of random levels, groups, retention, connection limits, optional and inactive flags which answer each article with success, absence, errors or "
        "damaged data and refuse some connections; the request log of each article is checked; non-trivial when an article was requested from servers of two levels or from three servers")
QUICK, THOROUGH = 150, 5000
SHRINK = 60
NS = 6


class H(Hub):
    def reset(self):
        super().reset()
        self.refuse = {}        # server -> list of greetings for the first connections (None: closed), last repeats if forever
        self.conns = {}
        self.refused = set()
    def greeting(self, i):
        with self.lock:
            n = self.conns.get(i, 0); self.conns[i] = n + 1
            l, forever = self.refuse.get(i, ([], False))
            if n < len(l): g = l[n]
            elif forever: g = l[-1]
            else: return b"200 ready\r\n"
            self.refused.add(i)
            return g


def setup(ctx):
    h = H()
    for _ in range(NS): h.add_server()
    class E:
        hub = h
        def close(self): h.close()
    return E()


def case(s, ctx):
    hub = ctx.env.hub
    hub.reset()
    n = s.int(1, NS)
    now = int(time.time())
    servers, cfg = [], []
    retries = s.choice([0, 1, 2, 3])
    for i in range(n):
        v = dict(i=i, level=s.choice([0, 0, 1, 2, 5]), group=s.choice([0, 0, 0, 1, 2]), optional=s.bool(0.25), active=s.bool(0.88), conns=s.choice([2, 1, 3, 0, 4]) if s.bool(0.9) else 0,
                 retention=s.choice([0, 0, 0, 100, 1000]), join=s.bool(0.2))
        # servers of a group are the same server under different accounts
        for w in servers:
            if w["group"] and w["group"] == v["group"]: v["retention"] = w["retention"]
        if s.bool(0.25):
            hub.refuse[i] = ([s.choice([None, b"400 busy\r\n", b"502 no\r\n", b""]) for _ in range(s.int(1, 3))], v["optional"] and s.bool(0.5))
        servers.append(v)
    # without a working server of the lowest level nothing is downloaded (documented)
    low = [v for v in servers if v["level"] == min(x["level"] for x in servers)]
    if not any(v["active"] and v["conns"] for v in low): low[0]["active"] = True; low[0]["conns"] = 2
    for v in servers:
        k = "Server%d." % (v["i"] + 1)
        cfg += [k + "Host=127.0.0.1", k + "Port=%d" % hub.servers[v["i"]].port, k + "Level=%d" % v["level"], k + "Group=%d" % v["group"], k + "Optional=" + ("yes" if v["optional"] else "no"),
                k + "Active=" + ("yes" if v["active"] else "no"), k + "Connections=%d" % v["conns"], k + "Retention=%d" % v["retention"], k + "JoinGroup=" + ("yes" if v["join"] else "no"),
                k + "Username=" + s.choice(["", "u"]), k + "Password=p"]
    rate = s.choice([0.4, 0.15, 0.7, 0.95])
    posts, entries = [], []
    def onefile():
        k = len(posts)
        size = s.int(1, 3000); data = s.blob(size)
        cuts = sorted({s.int(1, size - 1) for _ in range(s.n(min(4, size - 1)))}) if size > 1 else []
        date = now - 86400 * s.choice([1, 50, 99, 102, 500, 998, 1005, 3000])
        p = Post(hub, "f%d" % k, "f%d.bin" % k, data, cuts, date=date)
        posts.append(p); entries.append(p.entry); p.date = date
        for mid in p.mids():
            for i in range(n):
                if not s.bool(rate): continue
                def one():
                    b = hub.arts[mid]
                    a = s.weighted([(5, "missing"), (1, "code"), (1, "drop"), (2, "bad"), (1, "none"), (1, "close")])
                    if a == "missing": return ("code", s.choice([430, 423, 420]), "none")
                    if a == "code": return ("code", s.choice([500, 503, 400]) if servers[i]["optional"] else s.choice([500, 503]), "error")
                    if a == "drop": return ("drop", b, s.n(max(1, len(b) - 40)))
                    if a == "bad": return ("ok", b[:b.rindex(b"pcrc32=" if b"pcrc32=" in b else b"crc32=")] + b"pcrc32=00000000\r\n" if b"pcrc32=" in b else b[:b.rindex(b"crc32=")] + b"crc32=00000000\r\n")
                    if a == "close" and servers[i]["optional"]: return ("close",)
                    return ("raw", b"222 0 <x>\r\n.\r\n")
                # the first answers may be errors and later ones good
                l = [one() for _ in range(s.choice([1, 1, 1, 2]))]
                if s.bool(0.3): l.append(("ok",))
                hub.behave[(i, mid)] = l
    onefile()
    s.list(onefile, 0, 5, 0.7)
    s.notes.append(dict(servers=servers, retries=retries, refuse={k: [repr(x) for x in v[0]] for k, v in hub.refuse.items()}, files=[((now - p.date) // 86400, p.mids()) for p in posts],
                        behave={str(k): [a[:1] + (a[1:2] if a[0] == "code" else ()) for a in v] for k, v in hub.behave.items()}))
    opts = ["ArticleRetries=%d" % retries, "CrcCheck=yes", "HealthCheck=none", "ParCheck=manual", "ParRename=no", "RarRename=no", "DupeCheck=no", "ArticleInterval=%d" % s.choice([0, 1]), "ArticleCache=0", "PropagationDelay=0"]
    with Case(ctx, hub, opts=opts, servers=cfg) as d:
        i = d.append("x.nzb", nzb_doc(entries))
        h = d.wait_history(i, 40)
        stats = {x["ServerID"]: (x["SuccessArticles"], x["FailedArticles"]) for x in h["ServerStats"]}
    tries = max(1, retries)
    deep = ok = 0
    wins, losses = {}, {}
    log = {}
    for _, i, mid, kind in hub.log: log.setdefault(mid, []).append(i)
    for p in posts:
        age = (now - p.date) // 86400
        def usable(v): return v["active"] and v["conns"] > 0 and not (v["retention"] and age > v["retention"])
        for mid in p.mids():
            seq = log.get(mid, [])
            cnt, ucnt, failed, won = {}, {}, [], None
            def unit(v): return (v["level"], v["group"]) if v["group"] else v["i"]
            what = "article %s (age %d), requests %s: " % (mid, age, [x + 1 for x in seq])
            def exempt(u): return u["optional"] and u["i"] in hub.refused | drops(hub, servers)
            def fl(v): return any(f is v or (f["group"] and f["group"] == v["group"] and f["level"] == v["level"]) for f in failed)
            dr = set()
            def droppy(u): return any(unit(servers[i]) == unit(u) for i in dr)
            last = a = None
            for k, i in enumerate(seq):
                v = servers[i]
                if won is not None: raise Fail(what + "requested again after server %d delivered it" % (won + 1))
                if not usable(v): raise Fail(what + "server %d was asked though it is inactive, has no connections or is out of retention" % (i + 1))
                if last is not None and unit(last) != unit(v) and last not in failed and a not in ("conn", "drop"):
                    failed.append(last)     # gave up on it
                if fl(v): raise Fail(what + "server %d was asked after it or a server of its group had failed" % (i + 1))
                for u in servers:
                    if usable(u) and u["level"] < v["level"] and not fl(u) and not exempt(u) and not droppy(u):
                        raise Fail(what + "server %d of level %d was asked before server %d of level %d" % (i + 1, v["level"], u["i"] + 1, u["level"]))
                cnt[i] = cnt.get(i, 0) + 1
                a = kind_of(hub, i, mid, cnt[i])
                last = v
                if a == "ok": won = i
                elif a == "drop": dr.add(i)
                elif a == "missing": failed.append(v)
                elif a == "bad":
                    ucnt[unit(v)] = ucnt.get(unit(v), 0) + 1
                    if ucnt[unit(v)] > tries and not hub.refused and not drops(hub, servers): raise Fail(what + "server %d was asked %d times" % (i + 1, ucnt[unit(v)]))
            if won is None and last is not None and last not in failed and a not in ("conn", "drop"): failed.append(last)
            if won is None:
                for u in servers:
                    if usable(u) and not fl(u) and not exempt(u) and not droppy(u):
                        raise Fail(what + "given up though server %d was not asked" % (u["i"] + 1))
            else: ok += 1
            asked = set(seq)
            for i in asked:
                if i == won: wins[i] = wins.get(i, 0) + 1
                elif any(kind_of(hub, i, mid, k + 1) != "conn" for k in range(seq.count(i))): losses[i] = losses.get(i, 0) + 1
            if len({servers[i]["level"] for i in asked}) > 1 or len(asked) > 2: deep += 1
    total = sum(len(p.parts) for p in posts)
    got = (h["TotalArticles"], h["SuccessArticles"], h["FailedArticles"])
    if got != (total, ok, total - ok): raise Fail("articles total/success/failed %s, but the servers delivered %d of %d" % (got, ok, total))
    for i in range(n):
        if stats.get(i + 1, (0, 0)) != (wins.get(i, 0), losses.get(i, 0)):
            raise Fail("statistics of server %d: success/failed articles %s, expected %s" % (i + 1, stats.get(i + 1), (wins.get(i, 0), losses.get(i, 0))))
    return dict(nontrivial=deep > 0, steps=len(hub.log), labels=["servers=%d" % n, "levels=%d" % len({v["level"] for v in servers})] + sorted({a[0] for b in hub.behave.values() for a in b}),
                sample=s.notes[0])


def drops(hub, servers):
    """servers which broke connections or refused to serve"""
    r = set()
    for (i, mid), l in hub.behave.items():
        if any(conn_kind(a) or a[0] == "drop" for a in l): r.add(i)
    return r


def conn_kind(a): return a[0] == "close" or a[0] == "code" and a[1] in (400,)


def kind_of(hub, i, mid, k):
    b = hub.behave.get((i, mid))
    if not b: return "ok"
    a = b[min(k, len(b)) - 1]
    if a == ("ok",): return "ok"
    if conn_kind(a): return "conn"
    if a[0] == "drop": return "drop"
    if a[0] == "code" and a[1] in (430, 423, 420): return "missing"
    return "bad"
