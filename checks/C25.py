"""C25: the web server serves only files of the web directory, and serves them correctly."""
import gzip, os, re, time, zlib
from gen import Fail, blob
import e2e
from e2e import Case
from rawhttp import Http, Closed
prepare = e2e.prepare
ID = "C25"
LEVEL = "exploration"
RULE = ("one case = one run of the program serving a generated directory tree (names, sizes around the compression limit, binary content, files changed meanwhile, secret files beside it), asked over several fresh, kept-alive and "
        "pipelined connections: existing files, directories, combined files, missing files, hostile paths, conditional and compressed requests, origins and long headers, in any segmentation; every answer is compared with the "
        "content the URL stands for; non-trivial when a file was served, a hostile URL refused and one connection carried several answers")
QUICK, THOROUGH = 300, 12000
SHRINK = 60
SECRET = b"top-secret-7d1f"
TYPES = {".css": "text/css", ".html": "text/html", ".js": "application/javascript", ".png": "image/png", ".jpeg": "image/jpeg", ".gif": "image/gif"}
NAMES = ["index.html", "a.css", "b.css", "x.js", "y.js", "p.png", "i.gif", "q.jpeg", "noext", "A.CSS", "a-b_c.1.js", "combined.css", "z.txt", "favicon.ico", "jsonrpc.html"]


def content(s):
    n = s.choice([0, 1, 499, 500, 501, 502, 1000, 4096, 10240, 70000, 300000]) + s.n(3)
    k = s.n(3)
    if k == 0: return (b"<html>text %d</html>\n" % s.n(99) * (n // 20 + 1))[:n]
    if k == 1: return blob(s.n(0xffff), n)
    if k == 2: return (b"a\0b" * (n // 3 + 1))[:n]
    return bytes(255 - i % 256 for i in range(n))


def case(s, ctx):
    files = {}
    dirs = [""] + s.sample(["css", "img", "lib", "a/b"])
    for d in dirs:
        for nm in s.sample(NAMES):
            files[(d + "/" if d else "") + nm] = content(s)
    if not files: files["index.html"] = content(s)
    slash = s.choice(["", "", "/"])
    formauth = s.bool(0.2)
    root = None
    lab = []
    opts = ["FormAuth=" + ("yes" if formauth else "no")]
    served = refused = multi = 0
    case_ = Case(ctx, None, start=False, opts=opts)
    with case_ as d:
        root = d.p("web")
        def put(nm, data):
            p = os.path.join(root, nm); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(data)
        for nm, data in files.items(): put(nm, data)
        os.makedirs(d.p("web2"), exist_ok=True)
        for p in ("secret.txt", "web2/secret.txt", "websecret.txt"):
            with open(d.p(p), "wb") as f: f.write(SECRET)
        d.opts.append("WebDir=" + root + slash)
        d.start()
        etags = {}      # etag -> content
        of = {}         # content -> etag
        conn = None
        used = 0
        pending = []

        def request():
            """-> (bytes, description, expectation)"""
            k = s.weighted([(8, "file"), (2, "dir"), (3, "combined"), (3, "missing"), (6, "hostile"), (2, "options"), (2, "rpc"), (1, "post"), (1, "nzbget")])
            lab.append(k)
            keep = s.bool(0.75)
            head = []
            gz = s.bool(0.5)
            if gz: head.append("Accept-Encoding: " + s.choice(["gzip", "deflate, gzip", "gzip, br"]))
            inm = None
            if s.bool(0.4) and etags:
                inm = s.choice(sorted(etags)); 
                if s.bool(0.2): inm = s.choice(['"x"', inm[:-1], '"' + inm])
                head.append("If-None-Match: " + inm)
            if s.bool(0.2): head.append("Origin: " + s.choice(["http://h", "http://" + "o" * s.choice([100, 500, 700, 900, 990])]))
            if s.bool(0.15): head.append("X-Long: " + s.choice(["v", "v" * 1015, "w" * 1022 + "If-None-Match: \"q\"", "w" * s.int(1000, 1030) + "Content-Length: 7", "u" * 5000]))
            if s.bool(0.1): head.append("Cookie: Auth-Token=abc")
            if keep: head.append("Connection: keep-alive")
            elif s.bool(0.5): head.append("Connection: close")
            post = b""
            method = "GET"
            want = None
            if k == "file":
                nm = s.choice(sorted(files)); url = "/" + nm
                want = ("content", [nm], nm)
                if nm.startswith("combined.css") and False: want = None
            elif k == "dir":
                dd = s.choice(["", "css", "img", "lib", "a/b", "a", "none"])
                url = "/" + dd + ("/" if dd else "") if s.bool(0.6) or not dd else "/" + dd
                nm = (dd + "/" if dd else "") + "index.html"
                want = ("content", [nm], nm) if url.endswith("/") and nm in files else ("error",)
            elif k == "combined":
                nms = [s.choice(sorted(files)) for _ in range(s.int(1, 4))]
                if s.bool(0.2): nms.insert(s.n(len(nms)), "nothere.js")
                ext = s.choice(["css", "js", "png", "x"])
                url = "/combined.%s?%s" % (ext, "+".join(nms))
                want = ("content", nms, "combined." + ext) if all(n in files for n in nms) else ("error",)
            elif k == "missing":
                url = s.choice(["/nothere", "/index.htm", "/css/none.css", "/a/", "/noext/x", "/index.html/", "/index.html?x=1", "/index.html?", "/?index.html", "/combined.css", "/combined.css?", "/combined.js?nothere.js"])
                nm = url[1:]
                want = ("content", [nm], nm) if nm in files else ("any",)
            elif k == "hostile":
                up = s.choice(["../", "../../", "./../", "..//", "%2e%2e/", "..%2f", "..\\", ".../", "css/../../", "%2e%2e%2f", "..%c0%af"])
                tgt = s.choice(["secret.txt", "web2/secret.txt", "websecret.txt", "etc/passwd", "nzbget.conf"])
                form = s.n(10)
                absf = d.p(tgt)
                url = {0: "/" + up + tgt, 1: "/combined.css?" + up + tgt, 2: "/combined.css?a.css+" + up + tgt, 3: absf, 4: "/" + absf, 5: "/combined.js?" + absf, 6: "/css/" + up * s.int(1, 4) + tgt,
                       7: "/" + "./" * s.choice([10, 300, 480, 500]) + s.choice(["index.html", "../secret.txt"]), 8: s.choice(["//", "/\x01", "/%00", "/index.html%00.css", "/\xff", "/;", "/index.html#x", "/index.html;x"]), 9: s.choice(["", "x", "http://h/index.html", "*", "secret.txt"]), 10: "/x" + s.choice(["2/secret.txt", "secret.txt"])}[form]
                if form == 10: url = s.choice(["2/secret.txt", "secret.txt", "/../web2/secret.txt"])
                want = ("any",)
            elif k == "options":
                method = "OPTIONS"; url = s.choice(["/", "/jsonrpc", "/index.html"]); want = ("empty",)
            elif k == "rpc":
                url = s.choice(["/jsonrpc", "/jsonrpc/version"]); want = ("rpc",)
                if url == "/jsonrpc": method = "POST"; post = b'{"method":"version","params":[],"id":%d}' % s.n(99)
            elif k == "post":
                method = "POST"; url = "/index.html"; post = b"x" * s.choice([1, 10, 2000]); want = ("error",)
            elif s.bool(0.3): url = "/nzbget"; want = ("redirect",)
            else:
                nm = s.choice(sorted(files)); url = "/nzbget/" + nm; want = ("content", [nm], nm)
            req = ("%s %s HTTP/1.1\r\nHost: h\r\n" % (method, url)).encode("latin1") + "".join(h + "\r\n" for h in s.shuffle(head)).encode() + (b"Content-Length: %d\r\n" % len(post) if post else b"") + b"\r\n" + post
            toolong = len(url) + 14 > 1000
            return dict(raw=req, what="%s %s (keep %s, gzip %s, match %r)" % (method, url if len(url) < 200 else url[:200] + "...", keep, gz, inm), keep=keep, want=want, gz=gz, inm=inm, method=method, toolong=toolong, url=url,
                        headlen=[len(x) for x in head])

        def judge(r, code, h, body):
            nonlocal served, refused
            w = r["what"]
            raw = body
            if h.get("content-encoding") == "gzip":
                if not r["gz"]: raise Fail("%s: compressed although not asked for" % w)
                try: body = gzip.decompress(body)
                except Exception as e: raise Fail("%s: compressed content can't be read: %s" % (w, e))
            if SECRET in body or b"root:" in body: raise Fail("%s: content of another file was sent" % w)
            want = r["want"]
            if (h.get("connection") == "keep-alive") and not r["keep"]: raise Fail("%s: answered keep-alive without being asked" % w)
            if want[0] == "empty":
                if code != 200 or body: raise Fail("%s: answered %s with %d bytes" % (w, code, len(body)))
            elif want[0] == "redirect":
                if code != 301 or body or h.get("location") != "/nzbget/": raise Fail("%s: answered %s, location %r" % (w, code, h.get("location")))
            elif want[0] == "error":
                if code < 400: raise Fail("%s: answered %s with %d bytes, expected an error" % (w, code, len(body)))
                refused += 1
            elif want[0] == "rpc":
                if code == 304: 
                    if r["inm"] is None: raise Fail("%s: answered not-modified" % w)
                elif code != 200 or b'"result"' not in body: raise Fail("%s: answered %s %r" % (w, code, body[:100]))
            elif want[0] == "any":
                if code in (200, 304): 
                    c = [x for x in list(files.values()) + [b""] if x == body] if code == 200 else [1]
                    if not c: raise Fail("%s: answered with content (%d bytes) of no file of the directory: %r" % (w, len(body), body[:100]))
                else: refused += 1
            else:
                c = b"".join(files[n] for n in want[1])
                t = TYPES.get(os.path.splitext(want[2])[1].lower())
                tag = h.get("etag")
                if code == 304:
                    if body: raise Fail("%s: not-modified with content" % w)
                    if r["inm"] is None or etags.get(r["inm"]) != c: raise Fail("%s: answered not-modified although the content is another one" % w)
                elif code == 200:
                    if r["inm"] is not None and etags.get(r["inm"]) == c: raise Fail("%s: full answer although the content is unchanged" % w)
                    if body != c: raise Fail("%s: wrong content: %d bytes, expected %d, first difference at %d" % (w, len(body), len(c), next((i for i in range(min(len(c), len(body))) if c[i] != body[i]), min(len(c), len(body)))))
                    served += 1
                else: raise Fail("%s: answered with %s" % (w, code))
                if tag is None: raise Fail("%s: no ETag" % w)
                if h.get("content-type") != t: raise Fail("%s: Content-Type %r, expected %r" % (w, h.get("content-type"), t))
                if etags.setdefault(tag, c) != c: raise Fail("%s: two contents with the same ETag" % w)
                if of.setdefault(c, tag) != tag: raise Fail("%s: one content with two ETags" % w)

        n = s.int(5, 60)
        i = 0
        while i < n:
            m0 = s.mark()
            if s.bool(0.1):
                nm = s.choice(sorted(files)); files[nm] = content(s); put(nm, files[nm])
            if conn is None: conn = Http(d.sockpath); used = 0
            batch = [request()]
            while batch[-1]["keep"] and not batch[-1]["toolong"] and batch[-1]["want"][0] not in ("any",) and s.bool(0.25) and len(batch) < 5: batch.append(request())
            i += len(batch)
            raw = b"".join(r["raw"] for r in batch)
            s.notes.append("; ".join(r["what"] for r in batch))
            try:
                if s.bool(0.2):
                    p = 0
                    while p < len(raw):
                        q = p + s.choice([1, 2, 3, 50, 1000, 1024, 5000]); conn.send(raw[p:q]); p = q
                        if p < 200: time.sleep(0.001)
                else: conn.send(raw)
            except Closed: pass
            for j, r in enumerate(batch):
                try: code, h, body = conn.answer()
                except Closed:
                    # allowed only where the request line itself is not acceptable, or after an answer that announced the end
                    if r["toolong"] or (r["want"][0] == "any" and not r["url"].startswith("/")): conn.close(); conn = None; refused += 1; break
                    d.check_alive()
                    raise Fail("%s: no answer (request %d of this connection)" % (r["what"], used + 1))
                used += 1
                if used > 1: multi += 1
                judge(r, code, h, body)
                if h.get("connection") != "keep-alive":
                    if r["keep"] and r["want"][0] in ("content", "rpc", "empty"): raise Fail("%s: connection not kept alive" % r["what"])
                    if conn.rest(): raise Fail("%s: more data after the last answer" % r["what"])
                    conn.close(); conn = None
                    if j < len(batch) - 1 and r["want"][0] in ("content", "rpc"): raise Fail("connection ended before all requests were answered")
                    break
            if conn is not None and conn.quiet(): raise Fail("%s: data without request: %r" % (batch[-1]["what"], conn.quiet()[:100]))
            s.span(m0)
        if conn: conn.close()
    return dict(labels=lab, steps=n, nontrivial=served and refused and multi, sample=dict(files={k: len(v) for k, v in list(files.items())[:8]}, requests=s.notes[:6]))
