"""C27: no byte sequence coming from the network crashes, corrupts or wedges the program."""
import base64, gzip, os, random, socket, struct, time, zlib, importlib.util
from gen import Fail
import e2e
from e2e import Case, Hub, Post, nzb_doc, stuff, yenc_lines
from web import WebHub
_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "C26.py")
_s = importlib.util.spec_from_file_location("c26forms", _p); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
Form = _m.Form
prepare = e2e.prepare
ID = "C27"
LEVEL = "exploration"
RULE = ("one case = one run of the sanitised program under one kind of hostile peer: 30-90 control connections with requests of every method and protocol form that are mutated (spans cut, doubled, exchanged, lengths and counts "
        "falsified, bytes inserted, broken off anywhere), or a news server answering articles with mutated answers, or an URL/feed server doing so; after each hostile exchange a well-formed call must be answered, requests broken off must "
        "have no effect, items must come to an end and no memory error may be reported; non-trivial when at least five hostile exchanges took place")
QUICK, THOROUGH = 120, 8000
SHRINK = 80

TOK = [b"\0", b"\xff", b"\xc3", b"\"", b"\\", b"\\u", b"\\ud800", b"\\u00", b"<", b">", b"</", b"<value>", b"</value>", b"<string>", b"<struct>", b"<member>", b"</methodCall>", b"<i4>", b"&", b"&#", b"&#x;", b"&#99999999999;", b"&amp", b"%", b"%4", b"%s%s%n",
       b"{", b"}", b"[", b"]", b",", b":", b"\r\n", b"\n", b"\r\n\r\n", b"\r", b" ", b"\t", b"?", b"/", b"//", b"=", b"-1", b"2147483647", b"-2147483648", b"4294967296", b"99999999999999999999", b"0", b"1e9", b"params", b"\"params\":", b"\"id\":", b"\"method\"",
       b"Content-Length: 5\r\n", b"Content-Length: -1\r\n", b"Authorization: Basic \r\n", b"Authorization: Basic !!!\r\n", b"Authorization: Basic " + b"QUFB" * 80 + b"\r\n", b"If-None-Match: \"\r\n", b"Accept-Encoding: gzip\r\n", b"Cookie: Auth-Token=\r\n", b"Cookie: Auth-Type=form; Auth-Token=x\r\n",
       b"Origin: " + b"o" * 400 + b"\r\n", b"X-Auth-Token: abc\r\n", b"X-Forwarded-For: 1.2.3.4\r\n"]
NTOK = [b"=ybegin ", b"=ybegin line=128 size=", b"=ypart begin=1 end=99999999999\r\n", b"=ypart begin=0 end=0\r\n", b"=yend size=0\r\n", b"=yend", b"part=", b"total=", b"name=", b"name=\r\n", b"pcrc32=", b"crc32=zzzz", b"begin ", b"begin 644 \r\n", b"end\r\n", b".\r\n", b"\r\n.\r\n", b"..", b"=", b"\r\n=y", b"222 0 <x>\r\n",
        b"430 no\r\n", b"400 bye\r\n", b"480 auth\r\n", b"381\r\n", b"size=", b"-1", b"99999999999999999999", b"2147483648", b"\0", b"\xff", b"\r", b"\n", b"`\r\n", b"~~~~\r\n"]
WTOK = [b"HTTP/1.1 ", b"200 OK", b"\r\n", b"\r\n\r\n", b"\n", b"Content-Length: ", b"Content-Length: -5\r\n", b"Content-Length: 99999999999\r\n", b"Content-Encoding: gzip\r\n", b"Content-Disposition: attachment; filename=", b"Content-Disposition: attachment; filename=\"\r\n", b"filename=", b"\"", b";",
        b"X-DNZB-Name: ", b"X-DNZB-Category: \r\n", b"X-DNZB-MoreInfo: x\r\n", b"Location: \r\n", b"HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:1\r\n\r\n", b"HTTP/1.1 302 Found\r\nLocation: /\r\n\r\n", b"\x1f\x8b", b"\0", b"\xff\xfe", b"<?xml version=\"1.0\" encoding=\"UTF-16\"?>", b"<rss>", b"<item>", b"</item>", b"<title>",
        b"<enclosure url=", b"<newznab:attr name=\"size\" value=\"", b"<nzb>", b"<file>", b"<file poster=\"", b" subject=\"", b"<segment bytes=\"", b"number=\"99999999999\"", b"number=\"-1\"", b"number=\"0\"", b"number=\"60000\"", b"</segment>", b"<![CDATA[", b"]]>", b"<!DOCTYPE x [<!ENTITY a \"b\">]>", b"&a;", b"&#0;", b"&#x110000;", b"<head><meta>", b"pubDate", b"-1"]


def mutate(s, b, tok, most=3):
    b = bytearray(b)
    for _ in range(s.int(1, most)):
        k = s.weighted([(4, "tok"), (2, "del"), (2, "dup"), (3, "byte"), (2, "cut"), (1, "run"), (1, "swap"), (2, "num"), (1, "drop")])
        p = s.n(len(b))
        if k == "tok": b[p:p] = s.choice(tok)
        elif k == "del": del b[p:p + s.size(1, 300, (1, 4, 64))]
        elif k == "dup": q = p + s.size(1, 400, (1, 16)); b[p:p] = b[p:q] * s.choice([1, 1, 2, 40])
        elif k == "byte" and b: b[min(p, len(b) - 1)] = s.choice([0, 255, 10, 13, 32, 34, 38, 60, 61, 92, 37, 128, s.n(255)])
        elif k == "cut": del b[p:]
        elif k == "run": b[p:p] = bytes([s.choice([0x41, 0x30, 0x3c, 0x5b, 0x7b, 0x25, 0x26, 0x5c, 0x20, 0x0a, 0xff])]) * s.size(1, 20000, (255, 256, 1023, 1024, 1025, 10240))
        elif k == "swap":
            q = s.n(len(b)); n = s.int(1, 30)
            x, y = b[p:p + n], b[q:q + n]; b[p:p + n] = y; b[q:q + n] = x
        elif k == "num":
            digits = [i for i in range(len(b)) if 48 <= b[i] <= 57]
            if digits:
                i = j = s.choice(digits)
                while j < len(b) and 48 <= b[j] <= 57: j += 1
                b[i:j] = s.choice([b"0", b"-1", b"1", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"9223372036854775808", b"99999999999999999999999", b"65536", b"", b"1.5", b"x"])
        elif k == "drop" and b: del b[:p]
    return bytes(b)


def setup(ctx):
    h = Hub(); h.add_server(); w = WebHub()
    class E:
        hub = h; web = w
        def close(self): h.close(); w.close()
    return E()


SIG = 0x6E7A6231
I = lambda *a: struct.pack("!%di" % len(a), *[(x + 2**31) % 2**32 - 2**31 for x in a])


def breq(kind, body, size=None, user=b"", pw=b""):
    return I(SIG, 76 + len(body) if size is None else size, kind) + user[:32].ljust(32, b"\0") + pw[:32].ljust(32, b"\0") + body


def odd(s, v):
    return s.weighted([(6, v), (1, -1), (1, 0), (1, 1), (1, v + 1), (1, v - 1), (1, 4), (1, 2**31 - 1), (1, -2**31), (1, 2**30), (1, 0x40000001), (1, 1000000), (1, s.int(-70000, 70000))])


def fixed(s, t):
    k = s.n(5)
    return t.ljust(512, b"\0")[:512] if k else s.choice([b"A" * 512, (b"%s%n/" * 110)[:512], b"\xff" * 512])


def case(s, ctx):
    mode = s.weighted([(6, "control"), (3, "news"), (2, "url"), (1, "feed"), (2, "nzb")])
    return dict(control=control, news=news, url=url, feed=feed, nzb=nzb)[mode](s, ctx)


def control(s, ctx):
    fm = Form(s)
    lab = []
    hub = ctx.env.hub; hub.reset()
    formauth = s.bool(0.3)
    opts = ["LogBuffer=1000", "UrlForce=no", "ControlUsername=", "FormAuth=" + ("yes" if formauth else "no"), "Feed1.Name=f", "Feed1.URL=http://127.0.0.1:1/", "Feed1.Interval=0", "Category1.Name=movies", "ArticleTimeout=1", "UrlTimeout=1", "Server1.Active=no"]
    marks = []
    done = 0
    with Case(ctx, hub, opts=opts) as d:
        d.rpc("pausedownload")
        doc = nzb_doc([dict(subject='"a%d.bin" (1/2)' % k, segs=[(1, 1000, "a%d@x" % k), (2, 500, "b%d@x" % k)]) for k in range(3)])
        ids = [d.append("it%d" % k, doc, category="movies" if k else "") for k in range(2)]
        gone = d.append("gone", doc); d.rpc("editqueue", "GroupParkDelete", 0, "", [gone])
        d.wait(lambda: len(d.rpc("listgroups")) == 2 and d.rpc("history"), "items in the queue")
        n = s.int(30, 90)
        for k in range(n):
            m0 = s.mark()
            what = s.weighted([(5, "rpc"), (4, "bin"), (2, "file"), (1, "junk")])
            half = s.bool(0.9)
            mark = "mark%dz" % k
            cutoff = False
            if what == "bin":
                kind = s.choice([1, 2, 3, 4, 5, 6, 6, 6, 7, 9 + 1, 11, 12, 12, 13, 14])
                size = None
                if kind == 1:
                    c = s.choice([doc, b"http://127.0.0.1:1/" + mark.encode(), b"", b"h", b"http:", b"x" * 3000, doc[:100]]); c = c.encode() if isinstance(c, str) else c
                    body = fixed(s, (mark + ".nzb").encode()) + fixed(s, b"movies") + I(odd(s, 0), odd(s, 1), odd(s, 0), odd(s, 0), odd(s, 0)) + fixed(s, b"key")
                    full = odd(s, len(c)); b = breq(1, body + I(full), 76 + 512 * 3 + 24) + c
                    cutoff = full == len(c)
                elif kind == 2: b = breq(2, I(odd(s, 0), odd(s, 2)))
                elif kind == 3: b = breq(3, I(odd(s, 1), odd(s, 1), odd(s, 2), odd(s, 0)) + fixed(s, s.choice([b".*", b"it[", b"(a|b)*", b"", b"((((", b"a{1,99999}", b"it0/.*"])))
                elif kind == 4: b = breq(4, I(odd(s, 5000)))
                elif kind == 6:
                    text = s.choice([b"", b"x\0\0\0", b"10\0\0", b"1", b"name=value\0\0", b"A" * 64])
                    nid = [s.choice([0, 1, 2, 3, 4, 5, -1, 99]) for _ in range(s.n(4))]
                    names = b"".join(s.choice([b"it0", b"it1/a0.bin", b"it.*", b"(", b"", b"gone"]) + s.choice([b"\0", b"\0", b""]) for _ in range(s.n(3)))
                    tl, ni, nn, nl = odd(s, len(text)), odd(s, len(nid)), odd(s, names.count(b"\0")), odd(s, len(names))
                    total = s.choice([len(text) + 4 * len(nid) + len(names), tl + ni * 4 + nl, odd(s, 0)])
                    b = breq(6, I(s.weighted([(9, s.int(0, 60)), (1, odd(s, 8))]), odd(s, 1), s.weighted([(6, s.int(0, 3)), (1, odd(s, 1))]), ni, nn, nl, tl, total)) + text + I(*nid) + names
                elif kind == 7: b = breq(7, I(odd(s, s.n(30)), odd(s, s.n(20))))
                elif kind == 12:
                    t = mark.encode() + s.choice([b"\0", b"", b"%s%n\0", b"x" * 3000 + b"\0", b"\n\0"])
                    full = odd(s, len(t)); b = breq(12, I(s.choice([0, 1, 2, 3, 4, 5, -1]), full)) + t
                    cutoff = full == len(t)
                elif kind == 13: b = breq(13, I(s.n(1)))
                elif kind == 14: b = breq(14, I(odd(s, 1)))
                else: b = breq(kind, b"" if kind in (9, 10) else I(odd(s, 0)))
                lab.append("bin%d" % kind)
                how = s.n(5)
                if how == 0: b = breq(s.choice([0, -1, 15, 99, kind]), b[76:], odd(s, len(b)), user=s.choice([b"", b"u" * 32]), pw=s.choice([b"", b"p" * 32])) if kind not in (8, 9) else b; cutoff = False
                elif how == 1:
                    m = mutate(s, b[12:], TOK, 2)
                    if struct.unpack("!i", b[8:12])[0] in (8, 9): m = b[12:]
                    b = b[:12] + m; cutoff = False
                elif how == 2 and cutoff: b = b[:-s.int(1, len(b) - 8)]; marks.append(mark)
                else: cutoff = False
            elif what == "rpc":
                args = s.choice([("writelog", ["INFO", mark]), ("writelog", ["INFO", mark]), ("append", [mark + ".nzb", base64.b64encode(doc.encode() if isinstance(doc, str) else doc).decode(), "movies", 0, False, True, "k", 0, "FORCE", []]),
                                 ("append", [mark, "http://127.0.0.1:1/x", "", 0, False, True, "", 0, "SCORE", [{"a": "b"}]]), ("editqueue", ["GroupSetParameter", 0, "a=b", ids]), ("editqueue", ["FileMoveOffset", 1, "", [1, 2]]), ("editqueue", ["GroupSetName", "x", [ids[0]]]),
                                 ("editqueue", ["HistorySetParameter", 0, "x", [gone]]), ("listfiles", [0, 0, ids[0]]), ("listfiles", [1, 5, 0]), ("listgroups", [5]), ("history", [True]), ("status", []), ("log", [1, 5]), ("log", [0, 100]), ("loadlog", [ids[0], 0, 100]), ("config", []), ("loadconfig", []),
                                 ("servervolumes", [True, True, True, True]), ("saveconfig", [[{"Name": "ControlIP", "Value": "x"}, {"Name": "A.B", "Value": ""}]]), ("configtemplates", [False]), ("viewfeed", [1, False]), ("previewfeed", [0, "n", "http://127.0.0.1:1/", "F: a", 0, False, "", 0, 0, "", False]),
                                 ("fetchfeed", [1]), ("editserver", [1, False]), ("resetservervolume", [1, "DAY"]), ("rate", [100]), ("scheduleresume", [60]), ("scan", []), ("version", []), ("postqueue", [5]), ("urlqueue", []), ("readurl", ["http://127.0.0.1:1/", "info"]), ("testserver", ["127.0.0.1", 1, "u", "p", False, "", 1]),
                                 ("clearlog", []), ("pausepost", []), ("system.multicall", [[{"methodName": "version", "params": []}, {"methodName": "log", "params": [0, 5]}]])])
                meth, a = args
                lab.append(meth)
                form = s.choice(["json", "json", "xml", "xml", "get", "jsonp"])
                if meth == "system.multicall": form = "xml"
                if form in ("json", "xml"):
                    body = fm.json(meth, a, s.choice([None, "1", '"a"'])) if form == "json" else fm.xml(meth, a)
                    how = s.n(3)
                    if how == 0 and len(body) > 1 and meth in ("writelog", "append"):
                        # a body that is shorter than announced
                        cl = len(body); body = body[:s.n(len(body) - 1)]; half = True; marks.append(mark)
                    else:
                        if how > 1: body = mutate(s, body, TOK, 4)
                        cl = s.weighted([(8, len(body)), (1, max(0, len(body) - s.int(1, 20))), (1, odd(s, len(body))), (1, s.choice([4294967296, 99999999999999999999, 2**31, 2**62]))])
                        if isinstance(cl, int) and cl == 2**30: cl = 2**24
                    path = b"/jsonrpc" if form == "json" else b"/xmlrpc"
                    if s.bool(0.05): path = s.choice([b"/jsonrpc/" + meth.encode(), b"/jsonprpc", b"/xmlrpc?x=1", b"/a:b/xmlrpc", b"//jsonrpc", b"/jsonrpcx"])
                    b = b"POST " + path + b" HTTP/1.1\r\nHost: x\r\nContent-Type: a/b\r\nContent-Length: " + str(cl).encode() + b"\r\n\r\n" + body
                    if how == 1: b = mutate(s, b[:b.find(b"\r\n\r\n") + 4], TOK, 3) + body
                else:
                    q = fm.get("jsonrpc", [x for x in a if isinstance(x, (int, bool, str))], "cb" if form == "jsonp" else None)
                    b = b"GET /" + (b"jsonprpc" if form == "jsonp" else s.choice([b"jsonrpc", b"xmlrpc"])) + b"/" + meth.encode() + b"?" + q.encode("latin1", "replace")[:6000] + b" HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"
                    b = mutate(s, b, TOK, 3)
            elif what == "file":
                b = b"GET " + s.choice([b"/", b"/index.html", b"/combined.js?a.js+b.js", b"/combined.css", b"/lib/", b"/nzbget:x/", b"/:/jsonrpc", b"/index.html?" + b"a" * 2000, b"", b"/%00", b"/%", b"/a%zzb", b"/lib%2fjquery.js", b"*", b"http://x/"]) + b" HTTP/1.1\r\nAccept-Encoding: gzip\r\n\r\n"
                if s.bool(0.3): b = s.choice([b"OPTIONS", b"POST", b"PUT", b"HEAD", b"get"]) + b[3:]
                if s.bool(0.7): b = mutate(s, b, TOK, 3)
                lab.append("file")
            else:
                b = s.choice([b"", b"n", I(SIG), I(SIG, 76), I(SIG) + b"\0" * 71, I(SIG) + b"\xff" * 72, b"POST", b"GET ", b"POST /jsonrpc HTTP/1.1\r\n", b"\x16\x03\x01\x02\0\x01\0\x01\xfc\x03\x03" + bytes(200), b"A" * 70000, b"\n" * 500, b"\0" * 300, s.blob(s.int(1, 200)) if hasattr(s, "blob") else b"z"])
                lab.append("junk")
            low = b.lower()
            if b"shutdown" in low or b"reload" in low or b".." in b: continue
            s.notes.append("%r%s" % (b[:160], " (%d bytes)" % len(b) if len(b) > 160 else ""))
            c = socket.socket(socket.AF_UNIX); c.settimeout(60)
            try:
                c.connect(d.sockpath)
                parts = [b] if s.bool(0.8) or len(b) < 2 else (lambda p: [b[:p], b[p:]])(s.int(1, len(b) - 1))
                for i, x in enumerate(parts):
                    if i: time.sleep(0.003)
                    c.sendall(x)
                if half: c.shutdown(socket.SHUT_WR)
                else: c.settimeout(0.05)
                end = s.bool(0.05)
                while not end and c.recv(65536): pass
            except socket.timeout:
                if half:
                    d.check_alive()
                    raise Fail("a connection whose request has ended isn't answered or closed within 60 seconds: %r" % b[:600])
            except OSError: pass
            finally: c.close()
            done += 1
            if d.proc.poll() is not None or d.sanitizer(): raise Fail("the program died (code %s) after %r (%d bytes): %s" % (d.proc.poll(), b[:1500], len(b), d.tail()))
            if s.n(3) == 0:
                d.rpc_timeout = 40
                try: v = d.rpc("version")
                except (OSError, e2e.http.client.HTTPException) as e:
                    d.check_alive(); raise Fail("a well-formed call isn't answered (%r) after %r" % (e, b[:1500]))
            s.span(m0)
        d.rpc("status"); d.rpc("listgroups"); d.rpc("history", True); d.rpc("log", 0, 1000)
        logs = open(d.p("log"), "rb").read() if os.path.exists(d.p("log")) else b""
        names = " ".join(g["NZBName"] for g in d.rpc("listgroups")) + " ".join(h["Name"] for h in d.rpc("history", True)) + " ".join(os.listdir(d.p("nzb")))
        texts = [l.split(b"\t")[-1] for l in logs.split(b"\n")]
        for m in marks:
            if any(t.strip().startswith(m.encode()) for t in texts): raise Fail("a message that was broken off was written to the log: %s" % m)
            if m in names: raise Fail("an item was added from a request that was broken off: %s" % m)
    return dict(labels=lab, steps=done, nontrivial=done >= 5, sample=[x[:250] for x in s.notes[:10]])


def news(s, ctx):
    hub = ctx.env.hub; hub.reset()
    lab = ["news"]
    opts = ["ArticleTimeout=1", "ArticleRetries=%d" % s.n(1), "Server1.Connections=%d" % s.int(1, 3), "Server1.Username=u", "Server1.Password=p", "DirectWrite=" + s.choice(["yes", "no"]), "ArticleCache=" + s.choice(["0", "10"]), "CrcCheck=" + s.choice(["yes", "no"]), "DirectRename=" + s.choice(["yes", "no"]),
            "RawArticle=" + s.weighted([(9, "no"), (1, "yes")]), "Decode=yes", "ContinuePartial=" + s.choice(["yes", "no"])]
    if s.bool(0.2): hub.greet[0] = s.choice([b"201 ok\r\n", b"200\n", b"2" + b"0" * 5000 + b"\r\n", b"200 \0\xff\r\n", b"200 x\r\n" + b"y" * 3000 + b"\r\n"])
    if s.bool(0.1): hub.authfail[0] = True
    bad = 0
    with Case(ctx, hub, opts=opts) as d:
        ids = []
        for k in range(s.int(1, 3)):
            m0 = s.mark()
            posts = [Post(hub, "n%d.%d" % (k, j), "f%d.bin" % j, s.blob(s.int(1, 1200)), [], enc=s.choice(["yenc", "yenc", "uu"])) if s.bool(0.4) else
                     (lambda data: Post(hub, "n%d.%d" % (k, j), "f%d.bin" % j, data, sorted({s.int(1, len(data) - 1) for _ in range(s.int(1, 4))})))(s.blob(s.int(20, 3000))) for j in range(s.int(1, 3))]
            for p in posts:
                for mid in p.mids():
                    if s.bool(0.8):
                        head = b"222 0 <" + mid.encode() + b">\r\n" + s.choice([b"", b"Subject: a\r\nX: " + b"y" * 3000 + b"\r\n\r\n"])
                        a = []
                        for _ in range(s.int(1, 2)):
                            body = hub.arts[mid]
                            b = mutate(s, head + body + b".\r\n", NTOK, 5)
                            if s.bool(0.3): b += s.choice([b"", b".\r\n", b"\r\n.\r\n"])
                            a.append(("raw", b, s.bool(0.5))); bad += 1
                            s.notes.append("%r" % b[:160])
                        hub.behave[mid] = a
            ids.append(d.append("n%d" % k, nzb_doc([p.entry for p in posts])))
            s.span(m0)
        if hub.authfail or hub.greet: time.sleep(0.7); d.rpc("listgroups")       # connection errors are retried until the server works
        else:
            for i in ids: d.wait_history(i, 60)
        d.check_alive()
    return dict(labels=lab, steps=bad, nontrivial=bad >= 5, sample=[x[:250] for x in s.notes[:10]])


def webcase(s, ctx, feedmode):
    web = ctx.env.web; web.reset(); hub = ctx.env.hub; hub.reset()
    bad = [0]
    n = s.int(3, 8)
    doc = nzb_doc([dict(subject='"a.bin" (1/1)', segs=[(1, 1000, "a@x")])]); doc = doc.encode() if isinstance(doc, str) else doc
    rss = ('<?xml version="1.0" encoding="UTF-8"?><rss version="2.0" xmlns:newznab="http://www.newznab.com/DTD/2010/feeds/attributes/"><channel><title>t</title>' + "".join(
        '<item><title>Some.Show.S01E%02d</title><link>http://127.0.0.1:1/%d&amp;x</link><pubDate>Tue, 19 Mar 2013 10:00:00 +0000</pubDate><category>TV &gt; HD</category><description><![CDATA[a<br>size 5 GB]]></description><enclosure url="http://127.0.0.1:1/e%d" length="123456" type="application/x-nzb"/>'
        '<newznab:attr name="size" value="123"/><newznab:attr name="season" value="1"/><newznab:attr name="rageid" value="77"/></item>' % (i, i, i) for i in range(3)) + "</channel></rss>").encode()
    scripts = []
    for k in range(n):
        m0 = s.mark(); a = []
        for _ in range(s.int(1, 2)):
            body = rss if feedmode else doc
            how = s.n(3)
            if how: body = mutate(s, body, WTOK, 5)
            h = [b"HTTP/1.1 200 OK\r\n", b"Content-Type: x\r\n"]
            if s.bool(0.5): h.append(b"Content-Disposition: attachment; filename=\"a%d.nzb\"\r\n" % k)
            if s.bool(0.3): body = gzip.compress(body); h.append(b"Content-Encoding: gzip\r\n"); body = mutate(s, body, WTOK, 2) if s.bool(0.6) else body
            if s.bool(0.5): h.append(b"Content-Length: %d\r\n" % len(body))
            hd = b"".join(h) + b"\r\n"
            if how != 1: hd = mutate(s, hd, WTOK, 3)
            if b".." in hd or b".." in body: body = body.replace(b"..", b". "); hd = hd.replace(b"..", b". ")
            a.append([hd + body] if s.bool(0.7) else [hd, 0.003, body[:len(body) // 2], 0.003, body[len(body) // 2:]]); bad[0] += 1
            s.notes.append("%r" % (hd + body)[:200])
        scripts.append(a); s.span(m0)
    at = [0] * n

    def handler(path, lines):
        k = int(path.strip("/").split("/")[0]) if path.strip("/").split("/")[0].isdigit() else 0
        k = min(k, n - 1)
        with web.lock: i = at[k]; at[k] += 1
        return scripts[k][min(i, len(scripts[k]) - 1)]
    web.handler = handler
    base = "http://127.0.0.1:%d" % web.port
    opts = ["UrlTimeout=2", "UrlRetries=%d" % s.n(1), "UrlConnections=4", "Server1.Active=no", "ControlUsername="]
    if feedmode:
        for k in range(n): opts += ["Feed%d.Name=f%d" % (k + 1, k), "Feed%d.URL=%s/%d" % (k + 1, base, k), "Feed%d.Interval=0" % (k + 1), "Feed%d.Filter=%s" % (k + 1, s.choice(["", "A: x", "A(pause:yes): size:>1MB%R: y"])), "Feed%d.Backlog=%s" % (k + 1, s.choice(["yes", "no"]))]
    with Case(ctx, None, opts=opts) as d:
        d.rpc("pausedownload")
        if feedmode:
            # an item coming from a feed may ask for any name
            d.rpc_timeout = 60
            for k in range(n):
                try: d.rpc("viewfeed", k + 1, True) if s.bool(0.7) else d.rpc("previewfeed", k + 1, "p", "%s/%d" % (base, k), "", 0, False, "", 0, 0, "", False)
                except e2e.RpcError: pass
                except (OSError, e2e.http.client.HTTPException) as e:
                    d.check_alive(); raise Fail("viewfeed isn't answered: %r" % (e,))
            d.rpc("fetchfeed", 0)
            d.wait(lambda: sum(at) >= n, "the feeds to be fetched", 60)
        else:
            for k in range(n): d.rpc("append", "", "%s/%d/x.nzb" % (base, k), "", 0, False, False, "", 0, "FORCE", [])
            def settled():
                return not any(g["Kind"] == "URL" for g in d.rpc("listgroups"))
            d.wait(settled, "all URLs to be fetched or given up", 90)
        d.rpc("version"); d.rpc("listgroups"); d.rpc("listfiles", 0, 0, 0); d.rpc("history", True); d.check_alive()
    return dict(labels=["feed" if feedmode else "url"], steps=bad[0], nontrivial=bad[0] >= 3, sample=[x[:250] for x in s.notes[:10]])


def url(s, ctx): return webcase(s, ctx, False)
def feed(s, ctx): return webcase(s, ctx, True)


def nzb(s, ctx):
    """mutated NZB files given to append"""
    hub = ctx.env.hub; hub.reset()
    n = s.int(5, 25)
    with Case(ctx, None, opts=["Server1.Active=no", "UrlForce=no"]) as d:
        d.rpc("pausedownload")
        for k in range(n):
            m0 = s.mark()
            doc = nzb_doc([dict(subject=s.choice(['"a%d.bin" (1/2)', "[1/1] - &quot;x%d.rar&quot; yEnc (1/3)", "%d", "&#34;%d", '"%d"" (1/', "(/%d)"]) % j, segs=[(i + 1, s.choice([1000, 0, -5, 2**31]), "a%d.%d@x" % (j, i)) for i in range(s.n(3))]) for j in range(s.n(3))], meta=(("title", "t"), ("password", "p")))
            b = mutate(s, doc.encode() if isinstance(doc, str) else doc, WTOK, 5).replace(b"..", b". ")
            s.notes.append("%r" % b[:200])
            try: d.rpc("append", "m%d.nzb" % k, base64.b64encode(b).decode(), "", 0, False, False, "", 0, "FORCE", [])
            except (OSError, e2e.http.client.HTTPException) as e: d.check_alive(); raise Fail("append isn't answered (%r): %r" % (e, b[:1500]))
            if d.proc.poll() is not None or d.sanitizer(): raise Fail("the program died (code %s) after an NZB file %r: %s" % (d.proc.poll(), b[:1500], d.tail()))
            s.span(m0)
        d.rpc("listgroups"); d.rpc("listfiles", 0, 0, 0); d.rpc("history", True)
    return dict(labels=["nzb"], steps=n, nontrivial=n >= 5, sample=[x[:250] for x in s.notes[:10]])
