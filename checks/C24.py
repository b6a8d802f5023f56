"""C24: remote access needs credentials and keeps to the role of the user."""
import base64, fnmatch, json, os, re, struct, time, urllib.parse, xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from gen import Fail
import e2e
from e2e import nzb_doc
from rawhttp import Http, TDaemon, Closed
prepare = e2e.prepare
ID = "C24"
LEVEL = "exploration"
RULE = ("one case = one run of the program with generated control, restricted and add users, authorised addresses and form authentication, and up to 40 requests from generated client addresses: right, nearly right, mixed up "
        "and missing credentials given in the header, in the URL, as cookie or in the binary protocol, over fresh and kept-alive connections, in every protocol form; the answer and every effect (queue, log, speed limit, pause, settings, "
        "shutdown) are compared with the role the documentation gives; non-trivial when at least one request is refused and one allowed")
QUICK, THOROUGH = 110, 9000
SHRINK = 60

USERS = ["nzbget", "admin", "a", "Ünï", "us er", "x%41y", "a+b", "root@h", "nzb&get", "jsonrpc", "\"q\"", "u/v"]
TAILS = ["", ":colon", "%25", " sp ace", "ß日", "/slash", "&<>\"'", "#hash", "=eq", "\\", "+", "?q"]
PREFIX = ["", "", "", "/nzbget"]
ADDR = ["127.0.0.1", "127.0.0.2", "127.0.0.12", "127.0.0.100", "127.0.1.5"]
MASKS = ["127.0.0.1", "127.0.0.2", "127.0.0.*", "127.0.0.?", "127.0.0.1?", "127.0.1.*", "10.*", "*.12", "127.0.0", "0.0.0.0", "127.0.0.1*"]
UNSAFE = {"append", "writelog", "rate", "saveconfig", "pausedownload", "resumedownload", "shutdown", "reload"}
ALL = ["version", "status", "listgroups", "config", "loadconfig", "log", "history", "append", "writelog", "rate", "pausedownload", "resumedownload", "saveconfig"]


def b64(t): return base64.b64encode(t.encode("utf8")).decode()


def pct(s, t):
    return "".join(c if c.isalnum() and c.isascii() and not s.bool(0.1) else "".join("%%%02X" % b for b in c.encode("utf8")) for c in t)


def near(s, users):
    """credentials that look right: (user, password) that belong to nobody"""
    u, p = s.choice(users)
    k = s.n(9)
    if k == 0: return u, p[:-1]
    if k == 1: return u, p + s.choice(["x", " ", "\0", "\n", ":"])
    if k == 2: return u, p.swapcase()
    if k == 3: return u, ""
    if k == 4: v, q = s.choice(users); return u, q
    if k == 5: return u[:-1], p
    if k == 6: return u + s.choice(["x", " "]), p
    if k == 7: return "", p
    if k == 8: return p, u
    return u, "tegbzn6789"


def xmlval(v):
    if isinstance(v, bool): return "<value><boolean>%d</boolean></value>" % v
    if isinstance(v, int): return "<value><i4>%d</i4></value>" % v
    if isinstance(v, list): return "<value><array><data>%s</data></array></value>" % "".join(map(xmlval, v))
    if isinstance(v, dict): return "<value><struct>%s</struct></value>" % "".join("<member><name>%s</name>%s</member>" % (escape(k), xmlval(x)) for k, x in v.items())
    return "<value><string>%s</string></value>" % escape(v)


def case(s, ctx):
    core = lambda i: "Zk%dq%sW" % (i, s.n(99999999))
    names = s.shuffle(USERS)
    cu = s.choice([names[0], names[0], ""]); cp = core(1) + s.choice(TAILS)
    ru = s.choice([names[1], names[1], ""]); rp = core(2) + s.choice(TAILS)
    au = s.choice([names[2], names[2], ""]); ap = core(3) + s.choice(TAILS)
    if s.bool(0.1) and cu and ru: ru = cu       # the same name with two passwords
    cp, rp, ap = cp.rstrip(), rp.rstrip(), ap.rstrip()
    formauth = s.bool(0.3)
    masks = s.list(lambda: s.choice(MASKS), 0, 3, 0.5) if s.bool(0.5) else []
    authip = s.choice([", ", ",", ";", "; "]).join(masks)
    nopw = s.bool(0.05)
    if nopw: cp = ""
    srvpw = core(4); sropt = core(5); srvuser = core(6)
    opts = ["ControlUsername=" + cu, "ControlPassword=" + cp, "RestrictedUsername=" + ru, "RestrictedPassword=" + rp, "AddUsername=" + au, "AddPassword=" + ap,
            "FormAuth=" + ("yes" if formauth else "no"), "AuthorizedIP=" + authip, "Server1.Active=no", "Server1.Host=127.0.0.1", "Server1.Port=1", "Server1.Username=" + srvuser, "Server1.Password=" + srvpw,
            "Server1.Connections=2", "My.sh:Opt=" + sropt]
    known = [(cu, cp)] + ([(ru, rp)] if ru else []) + ([(au, ap)] if au else [])
    s.notes.append("control %r:%r restricted %r:%r add %r:%r form=%s authip=%r" % (cu, cp, ru, rp, au, ap, formauth, authip))

    def login(u, p):
        if (cu == "" or u == cu) and p == cp: return "control"
        if ru and u == ru and p == rp: return "restricted"
        if au and u == au and p == ap: return "add"
        return None

    nreq = s.int(3, 40)
    lab = {}
    d = TDaemon(ctx, cu or "any", cp, opts=opts)
    tokens = {}
    st = dict(rate=0, paused=False, logs=set(), nzbs=set(), keep="30")
    unknown_logs = set()
    refused = allowed = 0
    conns = {}
    ended = False
    try:
        d.start()
        addr = ("127.0.0.1", d.port)

        def check_state(what):
            q = d.rpc("status")
            if (q["DownloadLimit"], q["DownloadPaused"]) != (st["rate"] * 1024, st["paused"]):
                raise Fail("after %s: speed limit %s paused %s, expected %s %s" % (what, q["DownloadLimit"], q["DownloadPaused"], st["rate"] * 1024, st["paused"]))
            got = {g["NZBName"] for g in d.rpc("listgroups", 0)}
            if got != st["nzbs"]: raise Fail("after %s: queued items %r, expected %r" % (what, sorted(got), sorted(st["nzbs"])))
            t = [l for l in open(d.conf, encoding="utf8") if l.startswith("KeepHistory=")]
            if t and t[-1].strip() != "KeepHistory=" + st["keep"]: raise Fail("after %s: the settings file has %r, expected %s" % (what, t, st["keep"]))
            logs = {x for m in d.rpc("log", 0, 100000) for x in re.findall(r"mark\d+x", m["Text"]) if m["Text"].startswith("mark")}
            if logs != st["logs"]: raise Fail("after %s: log entries %r, expected %r" % (what, sorted(logs), sorted(st["logs"])))

        for k in range(nreq):
            m0 = s.mark()
            src = s.choice(ADDR)
            ipok = any(fnmatch.fnmatchcase(src, m) for m in masks)
            last = k == nreq - 1
            form = s.weighted([(5, "json"), (3, "xml"), (2, "jsonget"), (2, "xmlget"), (3, "jsonp"), (2, "multi"), (3, "bin"), (1, "file"), (1, "options")])
            method = s.choice(ALL + (["shutdown", "reload"] if last else []))
            how = s.weighted([(4, "header"), (3, "url"), (2, "xheader"), (3, "cookie"), (3, "none")])
            if form == "bin": how = "bin"
            kind = s.weighted([(3, "right"), (3, "near"), (1, "junk")])
            role = None; head = []; upath = ""
            if how == "cookie":
                r = s.choice(["control", "restricted", "add"])
                if kind == "right" and r in tokens: tok, role = tokens[r], r
                else:
                    t = tokens.get(r, "x" * 48)
                    tok = s.choice(["", t[:-1], t[1:], t.swapcase(), t[:24], "0" * 48, t[:-1] + ("a" if t[-1] != "a" else "b")])
                    if tok in tokens.values(): tok = "?"
                head.append("Cookie: " + s.choice(["", "Auth-Type=http; "]) + "Auth-Token=" + tok)
                # no text may follow the token (the program takes the rest of the line)
                cred = ("cookie", tok, role)
            elif how == "none": cred = None
            else:
                if kind == "right": u, p = s.choice(known); u = u or s.choice(["any", "", "nzbget"])
                elif kind == "near": u, p = near(s, known)
                else: u, p = s.choice([("nzbget", "tegbzn6789"), ("", ""), ("a" * 100, "b" * 100), ("x", ""), ("", "x")])
                if how == "url" and "\0" in p: p = p.replace("\0", "y")
                if "\0" in p or "\0" in u: p = p.replace("\0", "z")
                role = login(u, p)
                if u == "" and p == "": role = None      # may count as none given
                raw = u + ":" + p
                if how == "header": head.append(s.choice(["Authorization: Basic ", "authorization: basic ", "AUTHORIZATION: Basic "]) + b64(raw))
                elif how == "xheader": head.append("X-Authorization: Basic " + b64(raw))
                elif how == "url": upath = "/" + pct(s, u) + ":" + pct(s, p)
                cred = (how, u, p)
                if how == "url" and (u == "" and p == ""): role = None
                nocolon = how in ("header", "xheader") and s.bool(0.05)
                if nocolon: head[-1] = head[-1].split("asic ")[0] + "asic " + b64(u); role = None; cred = (how, u)
            if form != "bin":
                if nopw or ipok: role = "control"
            if s.bool(0.2): head.append("X-Forwarded-For: " + s.choice(["127.0.0.1", "10.0.0.1", "127.0.0.2"]))
            keep = s.bool(0.6)
            if keep: head.append("Connection: keep-alive")
            # the request
            mk = "mark%dx" % k
            args = {"version": [], "status": [], "listgroups": [0], "config": [], "loadconfig": [], "log": [0, 5], "history": [False], "append": ["mark%dx.nzb" % k, b64_doc(k), "", 0, False, True, "", 0, "FORCE", []],
                    "writelog": ["INFO", mk + " text"], "rate": [k + 10], "pausedownload": [], "resumedownload": [], "shutdown": [], "reload": []}.get(method)
            if method == "saveconfig" and form == "jsonp" and role == "control": form = "json"
            if method == "saveconfig":
                args = [[{"Name": n, "Value": str(100 + k) if n == "KeepHistory" else v} for n, v in (l.split("=", 1) for l in d.config_lines() + ["KeepHistory=%d" % (100 + k)])]]
            s.notes.append("%d: %s %s from %s cred %r -> role %s%s" % (k, form, method, src, cred, role, " (keep)" if keep else ""))
            lab[form] = lab.get(form, 0) + 1; lab["role:" + str(role)] = lab.get("role:" + str(role), 0) + 1
            what = "request %d (%s %s from %s with %r)" % (k, form, method, src, cred)

            if form == "bin":
                if nopw: continue
                if ipok and role != "control": continue
                ub, pb = u.encode("utf8")[:32], p.encode("utf8")[:32]
                if len(u.encode("utf8")) > 31 or len(p.encode("utf8")) > 31: role = None
                elif role != "control": role = None
                if cu == "" and p == cp and len(p.encode("utf8")) <= 31: role = "control"
                body = struct.pack("!ii", 0, len((mk + " t").encode()) + 1) + (mk + " t").encode() + b"\0"
                base = lambda t, extra: struct.pack("!iii", 0x6E7A6231, 12 + 32 + 32 + extra, t) + ub.ljust(32, b"\0") + pb.ljust(32, b"\0")
                if method == "writelog": pkt = base(12, 8) + body
                elif method == "rate": pkt = base(RATE, 4) + struct.pack("!i", (k + 10) * 1024)
                elif method in ("pausedownload", "resumedownload"): pkt = base(2, 8) + struct.pack("!ii", method == "pausedownload", 1)
                else: pkt = base(VERSION, 0); method = "version"
                h = Http(addr, src)
                try: h.send(pkt); r = h.rest()
                except Closed: r = b""
                h.close()
                if role is None:
                    refused += 1
                    if r: raise Fail("%s: refused credentials got an answer of %d bytes" % (what, len(r)))
                else:
                    allowed += 1
                    if not r: raise Fail("%s: no answer" % what)
                    if method == "writelog": st["logs"].add(mk)
                    if method == "rate": st["rate"] = k + 10
                    if method == "pausedownload": st["paused"] = True
                    if method == "resumedownload": st["paused"] = False
                if method != "version" and (role is None or s.bool(0.3)): check_state(what)
                s.span(m0); continue

            pre = s.choice(PREFIX)
            jargs = json.dumps(args)
            post = None; httpm = "GET"
            if form in ("json", "options"): url = "/jsonrpc"; post = json.dumps({"method": method, "params": args, "id": k}).encode()
            elif form == "xml": url = "/xmlrpc"; post = xmlcall(method, args)
            elif form == "multi":
                calls = [(method, args)] + [(m2, {"version": [], "writelog": ["INFO", mk + "b"], "status": []}[m2]) for m2 in s.sample(["version", "writelog", "status"])]
                calls = s.shuffle(calls) if s.bool() else calls
                url = "/xmlrpc"; post = xmlcall("system.multicall", [[{"methodName": a, "params": b} for a, b in calls]])
                if method in ("saveconfig", "append", "shutdown", "reload"):
                    # struct parameters end a call of a multicall early; keep to calls without
                    if method == "saveconfig": form = "xml"; post = xmlcall(method, args)
            elif form == "file": url = s.choice(["/index.html", "/", "/index.js"])
            else:
                q = "&".join("p%d=%s" % (i, urllib.parse.quote(v if isinstance(v, str) else json.dumps(v))) for i, v in enumerate(args)) if method != "saveconfig" else ""
                url = {"jsonget": "/jsonrpc/", "xmlget": "/xmlrpc/", "jsonp": "/jsonprpc/"}[form] + method + ("?" + ("callback=cb&" if form == "jsonp" else "") + q if q or form == "jsonp" else "")
                if method == "saveconfig": form = form + "!"      # settings cannot be given this way
                if method == "append": form = form + "!"
            if form == "options": httpm = "OPTIONS"
            elif post is not None: httpm = "POST"
            req = "%s %s%s%s HTTP/1.1\r\nHost: x\r\n%s%s\r\n" % (httpm, pre, upath, url, "".join(x + "\r\n" for x in s.shuffle(head)), "Content-Length: %d\r\n" % len(post) if post is not None else "")
            key = (src, "k")
            h = conns.pop(key, None)
            # cookie role is decided per request, never by the connection
            for attempt in (0, 1):
                fresh = h is None
                if fresh: h = Http(addr, src)
                try:
                    h.send(req.encode("utf8") + (post or b""))
                    code, hd, body = h.answer(); break
                except Closed:
                    h.close(); h = None
                    if fresh: code = None; break
            if h is not None:
                if keep and hd.get("connection") == "keep-alive": conns[key] = h
                else: h.close()
            text = (body if code else b"").decode("utf8", "replace")
            if form == "options":
                if code != 200 or body: raise Fail("%s: OPTIONS answered %s %r" % (what, code, text[:200]))
                check_state(what); s.span(m0); continue
            if form == "file":
                if role is None and not formauth:
                    refused += 1
                    if code not in (401, None): raise Fail("%s: %s served without credentials (%s)" % (what, url, code))
                    if text: raise Fail("%s: text sent with the refusal: %r" % (what, text[:100]))
                elif code != 200: raise Fail("%s: %s answered with %s" % (what, url, code))
                if role is None and re.search(r"Auth-Token=[^;]", hd.get("set-cookie", "") if code else ""): raise Fail("%s: a token is given to a client without credentials" % what)
                s.span(m0); continue
            if role is None:
                refused += 1
                if code not in (401, None) or text: raise Fail("%s: answered %s %r without valid credentials" % (what, code, text[:300]))
                if re.search(r"Auth-Token=[^;]", hd.get("set-cookie", "") if code else ""): raise Fail("%s: a token is given to a client without credentials" % what)
                check_state(what); s.span(m0); continue
            # authorised
            if code is None: raise Fail("%s: no answer" % what)
            if code != 200: raise Fail("%s: answered %s although the credentials are valid (%s)" % (what, code, role))
            m = re.search(r"Auth-Token=([0-9A-Za-z]+);", hd.get("set-cookie", ""))
            if m and not (nopw or ipok):
                for r2, t2 in tokens.items():
                    if r2 != role and t2 == m.group(1): raise Fail("%s: the token of %s is given to %s" % (what, r2, role))
                if tokens.setdefault(role, m.group(1)) != m.group(1): raise Fail("%s: token of %s changed" % (what, role))
            do = [(method, args)] if form != "multi" else calls
            get = httpm == "GET" and not form.startswith("jsonp")
            results = []
            for mm, aa in do:
                may = role == "control" or role == "restricted" and mm != "saveconfig" or role == "add" and mm in ("append", "version")
                if get and mm in UNSAFE: may = False
                if form.endswith("!") and may: may = None
                results.append((mm, aa, may))
            denied = [x for x in results if x[2] is False]
            errs = len(re.findall(r'"code"|<name>faultCode</name>', text))
            if form == "multi":
                if errs != len(denied): raise Fail("%s: multicall of %r as %s has %d errors, expected %d: %s" % (what, [x[0] for x in results], role, errs, len(denied), text[:600]))
            elif results[0][2] is not None:
                if bool(errs) != bool(denied): raise Fail("%s: as %s %s: %s" % (what, role, "not refused" if denied else "refused", text[:600]))
            if denied: refused += 1
            if len(denied) < len(results): allowed += 1
            for mm, aa, may in results:
                if may is False: continue
                if may is None: continue
                if mm == "append": st["nzbs"].add("mark%dx" % k)
                if mm == "writelog": st["logs"].add(re.match(r"mark\d+x", aa[1]).group())
                if mm == "rate": st["rate"] = k + 10
                if mm == "pausedownload": st["paused"] = True
                if mm == "resumedownload": st["paused"] = False
                if mm == "saveconfig": st["keep"] = str(100 + k)
            # secrets
            if role != "control" and method != "log":       # a password given as user name is logged
                for name, sec in (("ControlPassword", cp), ("RestrictedPassword", rp), ("AddPassword", ap), ("Server1.Password", srvpw), ("Server1.Username", srvuser), ("My.sh:Opt", sropt)):
                    c = re.match(r"Zk\d+q\d+W", sec)
                    if c and c.group() in text: raise Fail("%s: the value of %s is shown to the %s user" % (what, name, role))
            if role == "control" and method in ("config", "loadconfig") and form in ("json", "jsonget"):
                o = {x["Name"]: x["Value"] for x in json.loads(text)["result"]}
                for name, v in (("ControlPassword", cp), ("RestrictedPassword", rp), ("AddPassword", ap), ("Server1.Password", srvpw)):
                    if o.get(name) != v: raise Fail("%s: the control user sees %r for %s" % (what, o.get(name), name))
            if role == "restricted" and method in ("config", "loadconfig") and form in ("json", "jsonget"):
                o = {x["Name"]: x["Value"] for x in json.loads(text)["result"]}
                for name, v in o.items():
                    hide = re.search(r"username|password|:", name, re.I) or name in ("ControlIP", "ControlPort", "AuthorizedIP", "SecureKey", "SecureCert")
                    if hide and v != "***": raise Fail("%s: option %s is shown to the restricted user" % (what, name))
                for name, v in (("InterDir", d.main + "/inter"), ("ParCheck", "manual")):
                    if o.get(name) not in (v, v + "/"): raise Fail("%s: the restricted user sees %r for %s" % (what, o.get(name), name))
            if any(mm in ("shutdown", "reload") and may for mm, aa, may in results):
                if any(mm == "shutdown" for mm, aa, may in results):
                    ended = True
                    for _ in range(6000):
                        if d.proc.poll() is not None: break
                        time.sleep(0.01)
                    else: raise Fail("%s: the program did not end" % what)
                else:
                    ended = True       # restarted by exec; nothing more to look at
                break
            if method in ("shutdown", "reload"): time.sleep(0.2)
            check_state(what)
            s.span(m0)
        for h in conns.values(): h.close()
        if not ended:
            check_state("all requests"); d.stop()
        elif d.sanitizer(): raise Fail("crash: " + d.sanitizer())
    except (OSError,) as e:
        time.sleep(0.3)
        if d.proc is not None and (d.proc.poll() is not None or d.sanitizer()): raise Fail("the program died (code %s): %s" % (d.proc.poll(), d.tail())) from e
        raise
    finally:
        d.close()
    return dict(labels=[k for k, v in lab.items() for _ in range(v)], steps=nreq, nontrivial=refused and allowed, sample=dict(users=[cu, ru, au], authip=authip, form=formauth, requests=s.notes[1:6], refused=refused, allowed=allowed))


RATE, VERSION = 4, 10


def xmlcall(method, args):
    return ("<?xml version=\"1.0\"?><methodCall><methodName>%s</methodName><params>%s</params></methodCall>" % (method, "".join("<param>%s</param>" % xmlval(a) for a in args))).encode("utf8")


def b64_doc(k):
    return base64.b64encode(nzb_doc([dict(subject='"a%d.bin" (1/1)' % k, segs=[(1, 1000, "m%d@x" % k)])])).decode()
