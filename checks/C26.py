"""C26: answers are well-formed and the same in every protocol form, requests mean the same in every form."""
import base64, json, os, re, time, urllib.parse, xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from gen import Fail
import e2e
from e2e import Case, nzb_doc
from rawhttp import Http, Closed
prepare = e2e.prepare
ID = "C26"
LEVEL = "exploration"
RULE = ("one case = one run of the program with generated queue, history, messages, settings and texts of arbitrary characters; up to 60 calls, each written in a generated spelling (JSON key order, white space, escapes, ids; XML "
        "entities, layout, int tags; GET, JSON-P, multicall); changing calls are checked against the values later calls return, reading calls are asked in all forms and the parsed answers compared value by value; "
        "non-trivial when texts needing escapes were set and read back through two forms")
QUICK, THOROUGH = 160, 6000
SHRINK = 60

CHARS = list("abz019 _-.") + list("\"'<>&\\/%+=#?;,:[]{}()|*~`$!^@") + ["\t", "\u00e4", "\u00df", "\u0105", "\u4e2d", "\u20ac", "\U0001f600", "\U00010000", "\U0010ffff", "\u00a0", "\u2028", "\ufffd", "\u0301", "\u200f"]
WORDS = ["&amp;", "&#65;", "&lt;b&gt;", "\\u0041", "\\n", "%41", "%s%n", "]]>", "<!--", "</value>", "</string>", "</struct>", "\"params\"", "params", "method", "id", "\",\"id\":5", "null", "true", "$(x)", "\\\"", "\\"]
CTRL = ["\n", "\r", "\x01", "\x1f", "\b", "\f", "\x7f", "\v"]


def text(s, lo=0, hi=10, ctrl=True):
    r = ""
    for _ in range(s.int(lo, hi)):
        k = s.n(11)
        r += s.choice(WORDS) if k == 10 else s.choice(CTRL) if k == 11 and ctrl else s.choice(CHARS)
    return r


class Form:
    """writes a call in one spelling"""
    def __init__(self, s): self.s = s

    def ws(self): return self.s.choice(["", "", " ", "\n", "\t ", "\r\n"])

    def jstr(self, t):
        s = self.s; o = '"'
        mode = s.n(2)
        for c in t:
            k = s.n(3) if mode else 0
            if c in '"\\': o += "\\" + c if k < 3 else "\\u%04x" % ord(c)
            elif c == "/" and k > 1: o += "\\/"
            elif ord(c) < 0x20: o += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}.get(c) if k < 2 and c in "\n\r\t\b\f" else "\\u%04X" % ord(c)
            elif k == 3 and ord(c) > 0xffff: v = ord(c) - 0x10000; o += "\\u%04x\\u%04X" % (0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff))
            elif k == 3 and not c.isascii(): o += "\\u%04x" % ord(c)
            else: o += c
        return o + '"'

    def jval(self, v):
        w = self.ws
        if isinstance(v, bool): return "true" if v else "false"
        if isinstance(v, int): return str(v)
        if isinstance(v, str): return self.jstr(v)
        if isinstance(v, list): return "[" + ",".join(w() + self.jval(x) + w() for x in v) + (w() if not v else "") + "]"
        if isinstance(v, dict): return "{" + ",".join(w() + self.jstr(k) + w() + ":" + w() + self.jval(x) + w() for k, x in v.items()) + "}"
        raise ValueError(v)

    def json(self, method, args, ids):
        s = self.s; w = self.ws
        f = [("method", self.jstr0(method)), ("params", self.jval(args))]
        if ids is not None: f.append(("id", ids))
        if s.bool(0.2): f.append(("jsonrpc", '"2.0"'))
        if s.bool(0.1): f.append(("nocache", "123"))
        if s.bool(0.1): f.append(("comment", self.jstr('{"method":"shutdown","params":[1],"id":77}')))
        if s.bool(0.1): f.append(("extra", '{"method" : "shutdown", "id" : [9]}'))
        if not args and s.bool(0.1): f = [x for x in f if x[0] != "params"]
        f = s.shuffle(f)
        return (w() + "{" + ",".join(w() + '"' + k + '"' + w() + ":" + w() + v + w() for k, v in f) + "}" + w()).encode("utf8")

    def jstr0(self, t): return '"' + t + '"'

    def xtext(self, t):
        s = self.s; o = ""
        for c in t:
            k = s.n(4)
            if c in "<&" or (c in ">\"'" and k): o += {"<": "&lt;", ">": "&gt;", "&": "&amp;", '"': "&quot;", "'": "&apos;"}[c]
            elif ord(c) < 0x20 or (k == 4 and not c.isalnum()): o += s.choice(["&#%d;", "&#x%x;", "&#x%06X;"]) % ord(c)
            else: o += c
        return o

    def xval(self, v):
        s = self.s; w = self.ws
        if isinstance(v, bool): return w() + "<value>" + w() + "<boolean>%d</boolean>" % v + w() + "</value>" + w()
        if isinstance(v, int): t = s.choice(["i4", "int"]); return w() + "<value><%s>%d</%s></value>" % (t, v, t) + w()
        if isinstance(v, str):
            if not v and s.bool(0.3): return "<value><string/></value>"
            return w() + "<value>" + w() + "<string>%s</string>" % self.xtext(v) + w() + "</value>" + w()
        if isinstance(v, list): return "<value><array><data>%s</data></array></value>" % "".join(map(self.xval, v))
        if isinstance(v, dict): return "<value><struct>%s</struct></value>" % "".join("<member><name>%s</name>%s</member>" % (k, self.xval(x)) for k, x in v.items())
        raise ValueError(v)

    def xml(self, method, args):
        w = self.ws
        return ('<?xml version="1.0"?>' + w() + "<methodCall>" + w() + "<methodName>%s</methodName>" % method + w() + "<params>" + "".join("<param>" + self.xval(a) + "</param>" + w() for a in args) + "</params></methodCall>").encode("utf8")

    def get(self, path, args, cb=None):
        isx = path == "xmlrpc"
        q = ([("callback", cb)] if cb is not None else []) + [("p%d" % i if self.s.bool() else "", (("1" if isx else "true") if a else ("0" if isx else "false")) if isinstance(a, bool) else str(a)) for i, a in enumerate(args)]
        return "&".join(k + "=" + v for k, v in q)


def pairs(l):
    r = {}
    for k, v in l:
        if k in r: raise Fail("field %r twice in one JSON object" % k)
        r[k] = v
    return r


def strict_json(b, what):
    try: t = b.decode("utf8")
    except UnicodeDecodeError as e: raise Fail("%s: the answer is not UTF-8: %s" % (what, e))
    try: return json.loads(t, object_pairs_hook=pairs, parse_constant=lambda c: 1 / 0)
    except Fail: raise
    except Exception as e: raise Fail("%s: the answer is not well-formed JSON: %s: %s" % (what, e, t[max(0, getattr(e, "pos", 0) - 200):getattr(e, "pos", 0) + 100]))


def xpy(e, what):
    """value of an XML element"""
    t = e.tag
    if t == "value":
        if len(e) == 0: return e.text or ""
        if len(e) != 1: raise Fail("%s: <value> with %d elements" % (what, len(e)))
        return xpy(e[0], what)
    if t in ("i4", "int"): return int(e.text)
    if t == "boolean":
        if e.text not in ("0", "1"): raise Fail("%s: boolean %r" % (what, e.text))
        return e.text == "1"
    if t == "string": return e.text or ""
    if t == "double": return float(e.text)
    if t == "array":
        if len(e) != 1 or any(x.tag != "value" for x in e[0]): raise Fail("%s: bad array in the answer" % what)
        return [xpy(x, what) for x in e.find("data")]
    if t == "struct":
        r = {}
        for m in e:
            k = m.find("name").text
            if k in r: raise Fail("%s: field %r twice in one struct" % (what, k))
            r[k] = xpy(m.find("value"), what)
        return r
    raise Fail("%s: unexpected element %s" % (what, t))


def strict_xml(b, what):
    try: root = ET.fromstring(b.decode("utf8"))
    except Exception as e: raise Fail("%s: the answer is not well-formed XML: %s: %r" % (what, e, b[:300]))
    if root.tag != "methodResponse" or len(root) != 1: raise Fail("%s: bad XML-RPC answer" % what)
    if root[0].tag == "fault":
        f = xpy(root[0].find("value"), what); return None, (f["faultCode"], f["faultString"])
    return xpy(root[0].find("param").find("value"), what), None


def xnorm(v):
    """what XML can carry of a value"""
    if isinstance(v, str): return "".join(c if c in "\t\n\r" or 0x20 <= ord(c) <= 0xd7ff or 0xe000 <= ord(c) <= 0xfffd or ord(c) > 0xffff else "." for c in v)
    if isinstance(v, list): return [xnorm(x) for x in v]
    if isinstance(v, dict): return {k: xnorm(x) for k, x in v.items()}
    return v


def typed(v):
    if isinstance(v, list): return ["L"] + [typed(x) for x in v]
    if isinstance(v, dict): return {k: typed(x) for k, x in v.items()}
    if v is None: return ("s", "")
    return (type(v).__name__, v)


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return "%s: fields differ: only in one %r, only in other %r" % (path, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        if list(a) != list(b): return "%s: fields in another order" % path
        for k in a:
            d = diff(a[k], b[k], path + "." + k)
            if d: return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return "%s: %d and %d elements" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d: return d
        return None
    if type(a) != type(b) or a != b: return "%s: %r and %r" % (path, a, b)


VOL = {"status": {"FreeDiskSpaceLo", "FreeDiskSpaceHi", "FreeDiskSpaceMB"}}


def case(s, ctx):
    fm = Form(s)
    lab = []
    opts = ["KeepHistory=30", "LogBuffer=2000", "UrlForce=no", "Feed1.Name=" + text(s, 1, 6, False).strip().replace("$", "S"), "Feed1.URL=http://127.0.0.1:1/x?a=1&b=<2>", "Feed1.Filter=A: x%y", "Feed1.Interval=0",
            "Category1.Name=movies", "Category2.Name=" + (text(s, 0, 6, False).replace("$", "S").replace(",", "").strip() or "tv"), "Server1.Active=no", "Server1.Name=" + text(s, 1, 8, False).replace("$", "S").strip(), "Server1.Host=127.0.0.1", "Server1.Port=1", "Server1.Connections=1"]
    if re.search(r"[#\t]|\.$", " ".join(opts)): pass
    n = s.int(8, 60)
    setread = 0
    with Case(ctx, None, opts=opts) as d:
        conn = [None]

        def http(method, url, body=None):
            for attempt in (0, 1):
                fresh = conn[0] is None
                if fresh: conn[0] = Http(d.sockpath)
                try:
                    conn[0].send(("%s %s HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n%s\r\n" % (method, url, "Content-Length: %d\r\n" % len(body) if body is not None else "")).encode("utf8") + (body or b""))
                    code, h, b = conn[0].answer(); break
                except Closed:
                    conn[0].close(); conn[0] = None
                    d.check_alive()
                    if fresh: raise Fail("no answer to %s %s %r" % (method, url, (body or b"")[:500]))
            if code != 200: raise Fail("%s %s %r answered with %s" % (method, url, (body or b"")[:300], code))
            return h, b

        def call(form, method, args):
            """-> (value, error)"""
            what = "%s %s(%s)" % (form, method, json.dumps(args, ensure_ascii=False)[:300])
            s.notes.append(what); lab.append(form)
            if form in ("json", "jsonget", "jsonp"):
                ids = None
                if form == "json":
                    ids = s.choice(["1", None, "null", '"abc"', "-5", '"x\\"y"', '"\\u00e4,]"', "1.5", '"' + "i" * s.choice([96, 97, 98, 99, 200]) + '"', "12345678901234567890", '"id"'])
                    h, b = http("POST", "/jsonrpc", fm.json(method, args, ids))
                elif form == "jsonget":
                    q = fm.get("jsonrpc", args); h, b = http("GET", "/jsonrpc/" + method + ("?" + q if q or s.bool(0.3) else ""))
                else:
                    cb = s.choice(["cb", "f.g", "_1"]); h, b = http("GET", "/jsonprpc/" + method + "?" + fm.get("jsonprpc", args, cb))
                    if not (b.startswith(cb.encode() + b"(") and b.endswith(b")")): raise Fail("%s: the answer is not wrapped in %s(...): %r ... %r" % (what, cb, b[:50], b[-20:]))
                    b = b[len(cb) + 1:-1]
                if h.get("content-type") != "application/json": raise Fail("%s: Content-Type %r" % (what, h.get("content-type")))
                r = strict_json(b, what)
                if ids is not None:
                    if "id" not in r or typed(r["id"]) != typed(json.loads(ids)): raise Fail("%s: id %s echoed as %r" % (what, ids, r.get("id")))
                elif "id" in r: raise Fail("%s: id without being given" % what)
                if ("result" in r) == ("error" in r): raise Fail("%s: neither or both of result and error: %r" % (what, list(r)))
                if "error" in r: return None, (r["error"]["code"], r["error"]["message"])
                return r["result"], None
            if form == "xmlget":
                q = fm.get("xmlrpc", args); h, b = http("GET", "/xmlrpc/" + method + ("?" + q if q or s.bool(0.3) else ""))
            elif form == "xml": h, b = http("POST", "/xmlrpc", fm.xml(method, args))
            else:
                others = s.shuffle([("version", []), ("log", [0, 0])])[:s.n(2)]
                at = s.n(len(others))
                calls = others[:at] + [(method, args)] + others[at:]
                h, b = http("POST", "/xmlrpc", fm.xml("system.multicall", [[{"methodName": m, "params": a} for m, a in calls]]))
                r, e = strict_xml(b, what)
                if e: raise Fail("%s: multicall refused: %r" % (what, e))
                if len(r) != len(calls): raise Fail("%s: multicall of %d calls has %d results: %r" % (what, len(calls), len(r), r))
                for (m, a), v in zip(calls, r):
                    if m == "version" and v != [d.version]: raise Fail("%s: version within multicall is %r" % (what, v))
                v = r[at]
                if isinstance(v, dict) and set(v) == {"faultCode", "faultString"}: return None, (v["faultCode"], v["faultString"])
                if isinstance(v, list) and method not in ("listgroups", "listfiles", "history", "log", "config", "loadconfig", "loadlog", "servervolumes", "configtemplates", "urlqueue", "postqueue", "viewfeed"):
                    if len(v) != 1: raise Fail("%s: result within multicall %r" % (what, v))
                    v = v[0]
                return v, None
            if h.get("content-type") != "text/xml": raise Fail("%s: Content-Type %r" % (what, h.get("content-type")))
            return strict_xml(b, what)

        def forms(args, safe):
            plain = all(isinstance(a, (int, bool)) for a in args)
            return ["json", "xml", "multi"] + (["jsonget", "xmlget", "jsonp"] if plain and safe else ["jsonp"] if plain else [])

        def same(method, args):
            fs = forms(args, method not in ("viewfeed", "editserver"))
            f0 = "json"
            others = [f for f in s.shuffle(fs) if f != f0][:s.int(1, 3)]
            for f in others:
                for attempt in range(8):
                    a = call(f0, method, args); b = call(f, method, args); c = call(f0, method, args)
                    def drop(v):
                        v, e = v
                        if isinstance(v, dict): v = {k: x for k, x in v.items() if k not in VOL.get(method, ())}
                        return v, e
                    a, b, c = drop(a), drop(b), drop(c)
                    if a == c: break
                else: raise Fail("%s keeps changing: %s" % (method, diff(a[0], c[0])))
                if a[1] != b[1]: raise Fail("%s%r: error %r in JSON, %r in form %s" % (method, args, a[1], b[1], f))
                if a[1]: continue
                x = diff(xnorm(a[0]) if f in ("xml", "xmlget", "multi") else a[0], b[0])
                if x: raise Fail("%s%r: JSON and form %s differ: %s" % (method, args, f, x))
            return a[0]

        d.version = d.rpc("version")
        d.rpc("pausedownload")
        items = {}      # id -> dict(params, key, score, mode, prio)
        hist = set()
        logs = []
        conf = None
        for k in range(n):
            m0 = s.mark()
            op = s.weighted([(4, "append"), (5, "writelog"), (4, "param"), (2, "dupekey"), (1, "name"), (2, "delete"), (12, "read"), (3, "error"), (2, "saveconfig"), (1, "url"), (1, "rate")])
            if op in ("param", "dupekey", "name", "delete") and not items: op = "append"
            if op == "append":
                nm = "n%d " % k + text(s, 0, 8, False)
                xml_only = None
                par = {}
                for _ in range(s.n(2)): par[s.choice(["*Unpack:", "X.sh:o p", "a"]) + str(s.n(5))] = text(s)
                key = text(s); score = s.int(-100, 100); mode = s.choice(["FORCE", "ALL", "SCORE", "force"]); prio = s.int(-100, 100)
                par = {a: b for a, b in par.items() if b}      # an empty value removes a parameter
                f = s.choice(["json", "xml", "multi"])
                if f != "json":
                    key = xnorm(key); par = {a: xnorm(b) for a, b in par.items()}
                doc = base64.b64encode(nzb_doc([dict(subject=s.choice(['"a%d.bin" (1/1)' % k, text(s, 1, 8, False).replace("\x7f", "")]), poster=text(s, 1, 5, False), groups=["alt.b"], segs=[(1, 1000 + k, "m%d&<x>@x" % k)])])).decode()
                plist = [{a: b} for a, b in par.items()] if f == "json" else [{"Name": a, "Value": b} for a, b in par.items()]
                args = [nm + ".nzb", doc, s.choice(["", "movies", "A", text(s, 0, 4, False)]), prio, s.bool(), True, key, score, mode, plist]
                if not plist and s.bool(0.3): args = args[:-1]
                v, e = call(f, "append", args)
                if e or not isinstance(v, int) or v <= 0: raise Fail("append%r: %r %r" % (args, v, e))
                items[v] = dict(par=par, key=key, score=score, mode=mode.upper(), prio=prio)
            elif op == "writelog":
                t = "L%d " % k + text(s, 0, 12, True)
                f = s.choice(["json", "xml", "multi"])
                if f != "json": t = xnorm(t)
                kind = s.choice(["INFO", "WARNING", "ERROR", "DETAIL"])
                v, e = call(f, "writelog", [kind, t])
                if v is not True: raise Fail("writelog: %r %r" % (v, e))
                logs.append((kind, t))
            elif op in ("param", "dupekey", "name"):
                i = s.choice(sorted(items)); f = s.choice(["json", "xml", "multi"])
                t = text(s)
                if f != "json": t = xnorm(t)
                if op == "param":
                    t = t or "x"; nm = s.choice(["P:a", "*X:", "q r"]); cmd, arg = "GroupSetParameter", nm + "=" + t; items[i]["par"][nm] = t
                elif op == "dupekey": cmd, arg = "GroupSetDupeKey", t; items[i]["key"] = t
                else: cmd, arg = "GroupSetName", "r%d " % k + text(s, 0, 5, False)
                args = [cmd, 0, arg, [i]] if s.bool() else [cmd, arg, [i]]
                v, e = call(f, "editqueue", args)
                if v is not True: raise Fail("editqueue%r: %r %r" % (args, v, e))
            elif op == "delete":
                i = s.choice(sorted(items)); v, e = call(s.choice(["json", "xml"]), "editqueue", ["GroupParkDelete", 0, "", [i]])
                if v is not True: raise Fail("delete: %r %r" % (v, e))
                hist.add(i); it = items.pop(i); items_h = it
            elif op == "rate":
                v, e = call(s.choice(["json", "xml", "multi", "jsonp"]), "rate", [s.int(0, 5000)])
                if v is not True: raise Fail("rate: %r %r" % (v, e))
            elif op == "url":
                t = text(s, 0, 6, False)
                v, e = call(s.choice(["json", "xml"]), "append", ["u%d" % k, "http://127.0.0.1:1/" + t, "", 0, False, True, "", 0, "FORCE", []])
                if e: raise Fail("append of an URL: %r" % (e,))
            elif op == "saveconfig":
                cur = [l.split("=", 1) for l in d.config_lines()]
                last = {a.lower(): (a, b) for a, b in cur}
                conf = {a: b for a, b in last.values()}
                conf["Feed1.Filter"] = text(s, 1, 8, False).strip() or "x"; conf["ControlIP"] = d.sockpath
                f = s.choice(["json", "xml", "multi"])
                v, e = call(f, "saveconfig", [[{"Name": a, "Value": b} for a, b in conf.items()]])
                if v is not True: raise Fail("saveconfig: %r %r" % (v, e))
                got = {x["Name"]: x["Value"] for x in same("loadconfig", [])}
                for a, b in conf.items():
                    if got.get(a) != b: raise Fail("saved %s=%r, loadconfig tells %r; file: %s" % (a, b, got.get(a), open(d.conf).read()[:600]))
            elif op == "error":
                m, a = s.choice([("nosuch", []), ("", []), ("rate", ["x"]), ("rate", []), ("editqueue", ["Nothing", 0, "", [1]]), ("writelog", ["INFO"]), ("writelog", ["BAD", "x"]), ("log", []), ("log", [5, 5]), ("append", []), ("append", ["a"]), ("loadlog", []), ("listfiles", ["a"]),
                                 ("x" * 150, []), ("editqueue", []), ("viewfeed", [99]), ("editserver", [99, True]), ("resetservervolume", [99, "x"])])
                es = {}
                for f in s.shuffle(["json", "xml"] + (["multi"] if m and len(m) < 90 else [])):
                    v, e = call(f, m, a)
                    es[f] = (v, e)
                if any(x[1] is None for x in es.values()) and m in ("nosuch", "writelog", "log"): raise Fail("%s%r accepted: %r" % (m, a, es))
                if len({repr(x) for x in es.values()}) > 1: raise Fail("%s%r is answered differently: %r" % (m, a, es))
            else:
                q = s.choice(["listgroups", "history", "status", "log", "listfiles", "config", "loadlog", "servervolumes", "configtemplates", "urlqueue", "postqueue", "version", "viewfeed", "loadconfig"])
                if q == "listgroups":
                    for g in same(q, [0] if s.bool() else []):
                        it = items.get(g["NZBID"])
                        if it is None: continue
                        got = {p["Name"]: p["Value"] for p in g["Parameters"]}
                        want = {a: b for a, b in it["par"].items()}
                        # names of parameters are compared ignoring case by the program
                        for a, b in want.items():
                            if got.get(a) != b: raise Fail("parameter %r of item %d is %r, set was %r" % (a, g["NZBID"], got.get(a), b))
                        for fld, val in (("DupeKey", it["key"]), ("DupeScore", it["score"]), ("DupeMode", it["mode"]), ("MaxPriority", it["prio"])):
                            if g[fld] != val: raise Fail("%s of item %d is %r, set was %r" % (fld, g["NZBID"], g[fld], val))
                        if any(c in CTRL or c in "\"<>&\\" or ord(c) > 127 for c in it["key"] + "".join(want.values())): setread += 1
                elif q == "log":
                    a = s.choice([[0, 2000], [1, 0], [0, 3], [s.int(1, 50), 0]])
                    v = same(q, a)
                    if a == [0, 2000]:
                        got = [(m["Kind"], m["Text"]) for m in v if re.match(r"L\d+ ", m["Text"])]
                        if got != logs: raise Fail("log entries %r, written were %r" % ([g for g in got if g not in logs][:3], [g for g in logs if g not in got][:3]))
                        if logs: setread += 1
                elif q == "history": same(q, [s.bool()] if s.bool() else [])
                elif q == "listfiles": same(q, [0, 0, s.choice(sorted(items) or [0])])
                elif q == "loadlog": same(q, [s.choice(sorted(items) + sorted(hist) or [0]), 0, s.choice([1, 100])])
                elif q == "servervolumes": same(q, [s.bool() for _ in range(4)] if s.bool() else [])
                elif q == "configtemplates": same(q, [s.bool()] if s.bool() else [])
                elif q == "postqueue": same(q, [s.int(0, 3)])
                elif q == "viewfeed": same(q, [s.choice([1, 1, 7])])
                else: same(q, [])
            s.span(m0)
        if conn[0]: conn[0].close()
    return dict(labels=lab, steps=n, nontrivial=setread > 0, sample=[x[:300] for x in s.notes[:12]])
