"""C33: URL fetches deliver the served bytes whatever the transfer form."""
import gzip, os, re, zlib
from gen import Fail
import e2e
from e2e import Case, nzb_doc, tree
from web import WebHub, segments
prepare = e2e.prepare
ID = "C33"
LEVEL = "exploration"
RULE = ("one case = one run of the program fetching 1-6 URLs from a scripted web server, each with its own answers to the first and repeated requests: complete (with length, closed at the end, compressed; headers in any order, "
        "case and spacing; any segmentation), redirected up to seven times, cut off, damaged, oversized, empty, not HTTP, error codes; queued items are compared byte by byte with what was served, the number of requests and "
        "the recorded status with a model; non-trivial when an answer is compressed, redirected, segmented, or an attempt fails and a later one succeeds")
QUICK, THOROUGH = 170, 6000
SHRINK = 60


def setup(ctx):
    h = WebHub()
    class E:
        hub = h
        def close(self): h.close()
    return E()


def recase(s, t):
    return s.choice([t, t, t.lower(), t.upper(), "".join(c.upper() if s.bool() else c.lower() for c in t) if s.bool(0.3) else t])


def document(s, k):
    """an nzb file unlike any other"""
    files = []
    for i in range(s.int(1, 3)):
        segs = "".join('<segment bytes="%d" number="%d">%s</segment>' % (s.int(1, 900000), j + 1, "k%d.f%d.s%d@x" % (k, i, j)) for j in range(s.int(1, s.choice([2, 5, 300]))))
        files.append('<file poster="p" date="1400000000" subject="&quot;k%df%d.bin&quot; (1/1)"><groups><group>alt.b</group></groups><segments>%s</segments></file>' % (k, i, segs))
    x = '<?xml version="1.0" encoding="UTF-8"?>\n<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">\n%s\n</nzb>\n' % "\n".join(files)
    if s.bool(0.2): x += "<!-- %s -->" % ("".join(s.choice("abc \n") for _ in range(20)) + "z" * s.choice([0, 10000, 10240, 70000]))
    return x.encode()


NAMES = ["a.nzb", "My Post.nzb", "x.y.z.NZB", "Ünï日.nzb", "b(1) [2].nzb", "noext", "page.txt"]


def case(s, ctx):
    hub = ctx.env.hub
    hub.reset()
    base = "http://127.0.0.1:%d" % hub.port
    retries = s.choice([0, 1, 2, 3])
    n = s.int(1, 6)
    items = []
    for k in range(n):
        doc = document(s, k)
        given = s.choice(["", "", "given %d.nzb" % k, "Other.nzb"])
        leaf = s.choice(["get%d.nzb" % k, "a b.nzb", "get.php?id=%d&x=y" % k, "x%20y.nzb", "get?u=http://h/p.nzb", "z" * s.choice([10, 900, 1100, 2000]) + "/l.nzb" if s.bool(0.3) else "q.nzb"])
        path = "/u%d/%s%s" % (k, s.choice(["", "p/", "p/q/"]), leaf)
        it = dict(k=k, doc=doc, given=given, path=path, url=base + path, cat=s.choice(["", "", "movies"]), prio=s.choice([0, 50, -100]), params=[("P:a", "v%d" % k)] if s.bool(0.3) else [], script=[], at=0, used=[], dnzb={}, wcat=None, cdname=None)

        def good(damage=None):
            body = doc
            head = [(recase(s, "Content-Type"), "application/x-nzb")]
            cd = s.choice(NAMES) if s.bool(0.5) else None
            if cd is not None:
                q = s.weighted([(4, "quoted"), (2, "token"), (1, "path")])
                if q == "token" and (" " in cd or "(" in cd): q = "quoted"
                tail = s.choice(["", "", ";", "; size=123", " ; "])
                v = {"quoted": 'attachment; filename="%s"' % cd, "token": "attachment;filename=%s" % cd, "path": 'attachment; filename="some/dir/%s"' % cd}[q] + tail
                head.append((recase(s, "Content-Disposition"), v))
            elif s.bool(0.1): head.append(("Content-Disposition", s.choice(["inline", "attachment; filename=", 'attachment; filename=""', "attachment; filename=;"])))
            dn = {}
            if s.bool(0.3): dn["Name"] = "Some näme"
            if s.bool(0.2): dn["MoreInfo"] = "http://h/x?y=1:2"
            for a, b in dn.items(): head.append((recase(s, "X-DNZB-") + a, b))
            wc = "tv" if s.bool(0.2) else None
            if wc: head.append((recase(s, "X-DNZB-Category"), wc))
            for a in s.sample(["Set-Cookie: a=b; c", "Server: x", "X-Long: " + "y" * 3000, "Location: /nowhere", "Empty:"], 0, 3):
                a, b = a.split(":", 1); head.append((a, b.strip()))
            gz = s.bool(0.4); labels.add("gzip" if gz else "plain")
            if gz: body = gzip.compress(body, s.choice([0, 1, 9])); head.append((recase(s, "Content-Encoding"), "gzip")); s.notes.append("gzip")
            ln = s.bool(0.6); labels.add("length" if ln else "until-close")
            size = len(body)
            if damage == "cut":
                # a cut document without length and compression can't be told from a complete one
                if not gz: ln = True
                body = body[:s.n(max(1, len(body) - 1))]
                if gz and s.bool(0.4): size = len(body)
            if damage == "over": ln = True; body += b"junk" * s.int(1, 3000)
            if damage == "crc" and gz: body = body[:-8] + bytes([body[-8] ^ 1]) + body[-7:]
            if ln: head.append((recase(s, "Content-Length"), str(size)))
            head = s.shuffle(head)
            eol = s.choice(["\r\n", "\r\n", "\n"])
            h = s.choice(["HTTP/1.0 200 OK", "HTTP/1.1 200 OK", "HTTP/1.1 200"]) + eol + "".join(a + ":" + s.choice([" ", " ", "", "  ", "\t"]) + b + s.choice(["", "", " "]) + eol for a, b in head) + eol
            raw = h.encode("utf8")
            if damage == "head": raw = raw[:s.int(9, len(raw) - 4)]; body = b""
            seg = segments(s, raw + body)
            if len(seg) > 1: labels.add("segmented")
            if damage is None or damage == "over": return dict(kind="ok" if damage is None else "over", send=seg, cd=cd, dn=dn, wc=wc, empty=cd is None and any(a.lower() == "content-disposition" for a, _ in head))
            if damage == "crc": return dict(kind="fatal" if gz else "ok", send=seg, cd=cd, dn=dn, wc=wc)
            return dict(kind="fail", send=seg, cd=None, dn={}, wc=wc)

        def answer(depth=0):
            r = s.weighted([(10, "ok"), (4, "cut"), (1, "over"), (1, "crc"), (2, "head"), (4, "redirect"), (3, "code"), (1, "404"), (1, "drop"), (1, "garbage"), (1, "empty"), (1, "busy")])
            if r == "ok": return [good()]
            if r in ("cut", "over", "crc", "head"): return [good(r)]
            if r == "redirect":
                out = []
                for j in range(s.weighted([(6, 1), (2, 2), (1, 5), (1, 6), (1, 7)])):
                    t = "/u%d/r%d/%s" % (k, j, s.choice(["n.nzb", "get?u=http://h/x", "a%20b", "L" * 1200]))
                    form = s.choice(["abs", "path", "rel"])
                    out.append(dict(kind="redirect", target=t, form=form, rel="r%d.x/%s" % (j, s.choice(["n.nzb", "y?z=1"])), code=s.choice(["301 Moved", "302 Found", "303 See Other", "307 T", "308 P"]), loc=recase(s, "Location"), sp=s.choice([" ", "", "  "]), body=s.choice([b"", b"<html>moved</html>"]), more=s.choice(["", "Content-Length: 0\r\n"])))
                return out + answer(1) if depth == 0 else [good()]
            if r == "code": c = s.choice(["500 Error", "503 Busy", "403 Forbidden", "401 Auth", "204 No", "206 Part", "304 Not"]); return [dict(kind="fail", send=[("HTTP/1.1 %s\r\nContent-Length: 4\r\n\r\nbody" % c).encode()])]
            if r == "busy": return [dict(kind="conn", send=[b"HTTP/1.1 400 Bad\r\n\r\n"])]
            if r == "404": return [dict(kind="notfound", send=[b"HTTP/1.1 404 Not found\r\n\r\nno"])]
            if r == "drop": return [dict(kind="conn", send=[])]
            if r == "garbage": return [dict(kind="fail", send=[s.choice([b"\x00\x01\x02", b"SSH-2.0-x\r\n", b"\r\n\r\n", b"HTTP", b"HTTP/1.1\r\n\r\n", b"<html>" * 3000, b"HTTP/1.1 2"])])]
            return [dict(kind="fail", send=[b"HTTP/1.1 200 OK\r\n" + s.choice([b"", b"Content-Length: 0\r\n", b"Content-Encoding: gzip\r\n"]) + b"\r\n"])]

        labels = set()
        for _ in range(s.choice([1, 1, 2, 3, 4])): it["script"] += answer()
        it["labels"] = labels
        items.append(it)

    def handler(path, lines):
        m = re.match(r"/u(\d+)/", path)
        with hub.lock:
            if not m: return [b"HTTP/1.0 404 stray\r\n\r\n"]
            it = items[int(m.group(1))]
            a = it["script"][min(it["at"], len(it["script"]) - 1)]
            it["at"] += 1; it["used"].append((path, a))
        if a["kind"] != "redirect": return a["send"]
        if a["form"] == "rel": loc = a["rel"]
        else: loc = (base if a["form"] == "abs" else "") + a["target"]
        return [("HTTP/1.1 %s\r\n%s%s:%s%s\r\n\r\n" % (a["code"], a["more"], a["loc"], a["sp"], loc)).encode() + a["body"]]
    hub.handler = handler
    s.notes.append([dict(path=i["path"], given=i["given"], script=[a["kind"] + (repr(a["send"])[:300] if a["kind"] not in ("redirect",) else a["form"]) for a in i["script"]]) for i in items])

    with Case(ctx, None, opts=["UrlRetries=%d" % retries, "UrlInterval=0", "UrlConnections=%d" % s.choice([1, 2, 4]), "UrlTimeout=30", "DupeCheck=no", "NzbCleanupDisk=no", "Category1.Name=movies", "Category2.Name=tv"]) as d:
        for it in items:
            r = d.append(it["given"], b"", it["cat"], it["prio"]) if False else d.rpc("append", it["given"], it["url"], it["cat"], it["prio"], False, True, "key%d" % it["k"], 7, "FORCE", [{a: b} for a, b in it["params"]])
            if not (isinstance(r, int) and r > 0): raise Fail("append of URL returned %r" % r)
            it["id"] = r
        def done():
            g = d.rpc("listgroups"); h = d.history()
            got = {}
            for x in g:
                if x["Kind"] == "NZB": got.setdefault(x["DupeKey"], []).append(("queue", x))
            for x in h: got.setdefault(x["DupeKey"], []).append(("hist", x))
            if any(x["Kind"] == "URL" for x in g): return None
            return got if len(got) == n else None
        got = d.wait(done, "all URLs fetched or failed", 60)
        disk = tree(d.p("nzb")); tmp = tree(d.p("tmp"))
        files = {}
        for it in items:
            for where, x in got["key%d" % it["k"]]:
                if where == "queue": files[it["k"]] = [(f["Subject"], f["FileSizeLo"] + (f["FileSizeHi"] << 32)) for f in d.rpc("listfiles", 0, 0, x["NZBID"])]
    # the model
    docs = []
    nontrivial = False; labels = set()
    for it in items:
        labels |= it["labels"]
        what = "URL %s (given name %r, answers %s): " % (it["path"][:200], it["given"], [a["kind"] for _, a in it["used"]])
        pos = 0; rd = retries if retries > 0 else 1; rc = max(10, rd); result = None; fin = None; cur = it["path"].replace(" ", "%20"); over = False
        opt = []
        def take():
            nonlocal pos
            a = it["script"][min(pos, len(it["script"]) - 1)]; pos += 1
            return a
        while rd > 0 and rc > 0:
            hops = 0; st = "redirect"; start = cur
            while st == "redirect" and hops < 6:
                a = take(); hops += 1
                if pos <= len(it["used"]):
                    p = it["used"][pos - 1][0]
                    if p not in (cur, it["path"].replace(" ", "%20")) or (hops > 1 and p != cur): raise Fail(what + "request %d has the path %s, expected %s" % (pos, p[:300], cur[:300]))
                    cur = p
                st = a["kind"]
                if st == "redirect":
                    if a["form"] == "rel":
                        cur = cur.split("?")[0]; cur = cur[:cur.rindex("/") + 1] + a["rel"]
                    else: cur = a["target"]
            if st == "redirect": st = "fail"
            if st == "over":
                # the surplus bytes may be ignored or seen as an error
                over = True; result = "?"; fin = a; break
            if st == "ok": result = "ok"; fin = a; break
            if st in ("notfound", "fatal"): result = "failed"; break
            if st == "conn": rc -= 1
            else: rd -= 1
        else: result = "failed"
        g = got["key%d" % it["k"]]
        if len(g) != 1: raise Fail(what + "is there %d times: %s" % (len(g), [(a, b["NZBID"], b["Kind"], b.get("Status"), b["URL"] if "URL" in b else "") for a, b in g]))
        where, x = g[0]
        if not over and pos != len(it["used"]): raise Fail(what + "%d requests, expected %d (retries %d)" % (len(it["used"]), pos, retries))
        if pos > 1 or it["labels"] & {"gzip", "segmented"}: nontrivial = True
        labels.add(result)
        if pos > 1 and result == "ok": labels.add("success-later")
        if any(a["kind"] == "redirect" for _, a in it["used"]): labels.add("redirect")
        if result == "?":
            result = "failed" if where == "hist" else "ok"
            if where == "hist" and x["Status"] == "WARNING/SKIPPED": result = "ok"
        if result == "failed":
            if where != "hist" or x["Kind"] != "URL" or x["Status"] != "FAILURE/FETCH": raise Fail(what + "must have failed, but is %s %s" % (where, x.get("Status")))
            continue
        name = it["given"] or fin["cd"] or os.path.basename(it["url"])
        isnzb = name.lower().endswith(".nzb")
        if not isnzb:
            if where != "hist" or x["Status"] != "WARNING/SKIPPED": raise Fail(what + "the name %s is no nzb file, but the item is %s %s" % (name, where, x.get("Status")))
            continue
        if where != "queue": raise Fail(what + "was served completely, but is in history: %s, name %s" % (x["Status"], x["Name"]))
        docs.append(it["doc"])
        want = re.sub(r'[\\/:*?"<>|]', "_", name[:-4])
        if len(name) < 200 and x["NZBName"] != want: raise Fail(what + "is named %r, expected %r" % (x["NZBName"], want))
        cat = it["cat"] or fin["wc"] or ""
        if not it["cat"] and not fin["wc"] and any(a.get("wc") for _, a in it["used"]): cat = x["Category"]
        if x["Category"] != cat: raise Fail(what + "has the category %r, expected %r" % (x["Category"], cat))
        if x["MaxPriority"] != it["prio"] or x["DupeScore"] != 7: raise Fail(what + "priority %s, score %s" % (x["MaxPriority"], x["DupeScore"]))
        pars = {p["Name"]: p["Value"] for p in x["Parameters"]}
        for a, b in it["params"] + [("*DNZB:" + a, b) for a, b in fin["dn"].items()]:
            v = pars.get(a)
            if a == "*DNZB:Name": v = b if v in (b, b.encode().decode("latin1")) else v
            if v != b: raise Fail(what + "parameter %s is %r, expected %r" % (a, pars.get(a), b))
        fs = files[it["k"]]
        wantfs = it["doc"].count(b"<file ")
        if len(fs) != wantfs or any("k%df" % it["k"] not in f[0] for f in fs): raise Fail(what + "files %r" % fs)
    have = sorted(b for f, b in disk.items() if f.endswith(".queued"))
    if have != sorted(docs): raise Fail("the queued nzb files %s differ from the %d served documents" % ([(f, len(b)) for f, b in disk.items()], len(docs)))
    left = [f for f in tmp if f.startswith("url-")]
    if left: raise Fail("left in the temporary directory: %s" % left)
    for p, l in hub.log:
        if "Host: 127.0.0.1:%d" % hub.port not in l: raise Fail("request without proper Host: %s" % l[:6])
    return dict(labels=sorted(labels), nontrivial=nontrivial, steps=len(hub.log), sample="; ".join("%s: %s" % (i["path"][:60], [a["kind"] for _, a in i["used"]]) for i in items))
