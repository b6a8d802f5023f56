"""The real program (built with AddressSanitizer) driven over its RPC socket, with scripted news
and web servers.  Everything the program may write lies in a scratch directory, and it runs as
an unprivileged user where that is possible."""
import base64, http.client, json, os, re, shutil, signal, socket, struct, subprocess, threading, time, zlib
from xml.sax.saxutils import escape, quoteattr
import tempfile, sys
class Fail(Exception): pass
class build:
    REPO = "/repo"
class Ctx:
    """with Ctx() as ctx: a scratch directory"""
    def __enter__(self): self.dir = tempfile.mkdtemp(prefix="demo-"); os.chmod(self.dir, 0o755); return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)

NOBODY = 65534


def can_drop():
    if os.geteuid() != 0: return False
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY); os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


# ---------------------------------------------------------------- encodings

_T = bytes((i + 42) & 255 for i in range(256))
_CRIT = re.compile(b"[\x00\x0a\x0d\x3d]")


def yenc_lines(data, line=128):
    e = _CRIT.sub(lambda m: bytes((0x3d, (m.group()[0] + 64) & 255)), data.translate(_T))
    out, p, n = [], 0, len(e)
    while p < n:
        q = min(n, p + line)
        if e[q - 1] == 0x3d and q < n: q += 1
        out.append(e[p:q]); p = q
    return out


def yenc(data, name, part=None, total=None, begin=0, size=None, line=128, crc=True, pcrc=True, filecrc=None, total_field=True):
    """A yEnc article body as a list of lines (without line ends)."""
    size = len(data) if size is None else size
    nm = name.encode("latin1") if isinstance(name, str) else name   # names in article headers are Latin-1
    if part is None:
        h = [b"=ybegin line=%d size=%d name=%s" % (line, size, nm)]
        t = b"=yend size=%d" % size + (b" crc32=%08x" % zlib.crc32(data) if crc else b"")
    else:
        h = [b"=ybegin part=%d%s line=%d size=%d name=%s" % (part, b" total=%d" % total if total and total_field else b"", line, size, nm),
             b"=ypart begin=%d end=%d" % (begin + 1, begin + len(data))]
        t = b"=yend size=%d part=%d" % (len(data), part) + (b" pcrc32=%08x" % zlib.crc32(data) if pcrc else b"")
        if filecrc is not None: t += b" crc32=%08x" % filecrc
    return h + yenc_lines(data, line) + [t]


def uuenc(data, name, first=True, last=True):
    import binascii
    nm = name.encode("latin1") if isinstance(name, str) else name   # names in article headers are Latin-1
    r = [b"begin 644 " + nm] if first else []
    for i in range(0, len(data), 45):
        r.append(binascii.b2a_uu(data[i:i + 45], backtick=True).rstrip(b"\n"))
    if last: r += [b"`", b"end"]
    return r


def stuff(lines):
    """NNTP body text: dot-stuffed, with CRLF, without the final dot"""
    return b"".join((b"." + l if l[:1] == b"." else l) + b"\r\n" for l in lines)


# ---------------------------------------------------------------- news server

class Conn:
    pass


class NewsServer:
    """One scripted news server.  hub.action(server, msgid, attempt) decides each answer."""
    def __init__(self, hub, index):
        self.hub, self.index = hub, index
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0)); self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.open = 0; self.peak = 0
        self.alive = True
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while self.alive:
            try: c, _ = self.sock.accept()
            except OSError: return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def close(self):
        self.alive = False
        try: self.sock.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.sock.close()

    def serve(self, c):
        hub = self.hub
        with hub.lock:
            self.open += 1; self.peak = max(self.peak, self.open)
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.settimeout(120)
            g = hub.greeting(self.index)
            if g is None: return
            c.sendall(g)
            if not g.startswith(b"2"): return
            f = c.makefile("rb")
            authed = False
            for l in f:
                l = l.rstrip(b"\r\n")
                cmd = l.split(b" ")[0].upper()
                if cmd in (b"BODY", b"ARTICLE"):
                    mid = l.split(b" ", 1)[1].strip().decode("utf8", "replace").strip("<>")
                    if not self.article(c, cmd, mid): return
                elif cmd == b"AUTHINFO":
                    c.sendall(hub.auth(self.index, l))
                elif cmd == b"GROUP":
                    with hub.lock: hub.groups.append((self.index, l[6:].decode("latin1")))
                    c.sendall(b"211 1 1 1 " + l[6:] + b"\r\n")
                elif cmd == b"QUIT":
                    c.sendall(b"205 bye\r\n"); return
                else:
                    c.sendall(b"500 what\r\n")
        except (OSError, ValueError):
            pass
        finally:
            with hub.lock: self.open -= 1
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
            c.close()

    def article(self, c, cmd, mid):
        hub = self.hub
        with hub.lock:
            k = (self.index, mid)
            hub.attempts[k] = hub.attempts.get(k, 0) + 1
            n = hub.attempts[k]
            a = hub.action(self.index, mid, n)
            hub.log.append((time.time(), self.index, mid, a[0] if a else None))
        while hub.gate is not None and not hub.gate.is_set():
            hub.gate.wait(0.5)
            if not self.alive: return False
        kind = a[0]
        if kind == "missing": c.sendall(b"430 no such article\r\n"); return True
        if kind == "code": c.sendall(b"%d %s\r\n" % (a[1], a[2].encode())); return True
        if kind == "raw": self.send(c, a[1]); return a[2] if len(a) > 2 else True
        if kind == "close": return False
        body = a[1]
        head = b"222 0 <%s>\r\n" % mid.encode() if cmd == b"BODY" else b"220 0 <%s>\r\nMessage-ID: <%s>\r\nSubject: x\r\n\r\n" % (mid.encode(), mid.encode())
        if kind == "ok": self.send(c, head + body + b".\r\n"); return True
        if kind == "drop": self.send(c, head + body[:a[2]]); return False
        if kind == "stall":
            self.send(c, head + body[:a[2]]); time.sleep(a[3]); self.send(c, body[a[2]:] + b".\r\n"); return True
        raise ValueError(kind)

    def send(self, c, b):
        fr = self.hub.fragments
        if not fr: c.sendall(b); return
        p = i = 0
        while p < len(b):
            n = fr[i % len(fr)]; i += 1
            if i > 24: n = len(b) - p
            c.sendall(b[p:p + n]); p += n
            if self.hub.fragment_sleep: time.sleep(self.hub.fragment_sleep)


class Hub:
    """The articles and what each server does with them."""
    def __init__(self):
        self.lock = threading.Lock()
        self.servers = []
        self.reset()

    def reset(self):
        self.arts = {}          # msgid -> body bytes (stuffed, without final dot)
        self.behave = {}        # (server, msgid) or msgid -> list of actions per attempt (last one repeats)
        self.attempts = {}
        self.log = []
        self.groups = []
        self.fragments = None
        self.fragment_sleep = 0
        self.greet = {}
        self.authfail = {}
        self.gate = None

    def add_server(self):
        s = NewsServer(self, len(self.servers)); self.servers.append(s); return s

    def greeting(self, i): return self.greet.get(i, b"200 ready\r\n")

    def auth(self, i, line):
        if self.authfail.get(i): return b"481 rejected\r\n"
        return b"381 more\r\n" if b" USER " in line.upper() else b"281 ok\r\n"

    def action(self, server, mid, attempt):
        b = self.behave.get((server, mid)) or self.behave.get(mid)
        if b:
            a = b[min(attempt, len(b)) - 1]
            if a != ("ok",): return a
        body = self.arts.get(mid)
        return ("ok", body) if body is not None else ("missing",)

    def close(self):
        for s in self.servers: s.close()
        if self.gate is not None: self.gate.set()


# ---------------------------------------------------------------- NZB documents

def nzb_doc(files, meta=()):
    """files: dicts subject, groups, date, poster, segs [(number, bytes, msgid)]"""
    o = ['<?xml version="1.0" encoding="utf-8"?>\n<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.1//EN" "http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd">\n<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">\n']
    if meta:
        o.append("<head>" + "".join('<meta type=%s>%s</meta>' % (quoteattr(k), escape(v)) for k, v in meta) + "</head>\n")
    for f in files:
        o.append('<file poster=%s date="%d" subject=%s>\n<groups>%s</groups>\n<segments>' % (
            quoteattr(f.get("poster", "p")), f.get("date", 1400000000), quoteattr(f["subject"]),
            "".join("<group>%s</group>" % escape(g) for g in f.get("groups", ["alt.b"]))))
        for num, size, mid in f["segs"]:
            o.append('<segment bytes="%d" number="%d">%s</segment>' % (size, num, escape(mid)))
        o.append("</segments>\n</file>\n")
    o.append("</nzb>\n")
    return "".join(o).encode("utf8")


class Post:
    """One posted file: makes its articles on the hub and its NZB entry."""
    def __init__(self, hub, tag, name, data, cuts, enc="yenc", subject=None, line=128, date=1400000000,
                 pcrc=True, size_attr=None, yname=None):
        self.name, self.data, self.tag = name, data, tag
        self.parts = []
        n = len(cuts) + 1
        b = [0] + list(cuts) + [len(data)]
        yname = name if yname is None else yname
        for i in range(n):
            mid = "%s.%d@vp" % (tag, i + 1)
            d = data[b[i]:b[i + 1]]
            if enc == "yenc":
                lines = yenc(d, yname, None if n == 1 else i + 1, n, b[i], len(data), line, crc=pcrc, pcrc=pcrc)
            else:
                lines = uuenc(d, yname, i == 0, i == n - 1)
            body = stuff(lines)
            hub.arts[mid] = body
            self.parts.append((i + 1, len(body) if size_attr is None else size_attr, mid, b[i], b[i + 1]))
        self.entry = dict(subject=subject if subject is not None else '[1/1] - "%s" yEnc (1/%d)' % (name, n), date=date,
                          segs=[(p[0], p[1], p[2]) for p in self.parts])

    def mids(self): return [p[2] for p in self.parts]


# ---------------------------------------------------------------- the daemon

class UHTTP(http.client.HTTPConnection):
    def __init__(self, path, timeout=120):
        super().__init__("localhost", timeout=timeout); self.path = path
    def connect(self):
        self.sock = socket.socket(socket.AF_UNIX); self.sock.settimeout(self.timeout); self.sock.connect(self.path)


class RpcError(Exception):
    pass


class Died(Exception):
    pass


class Daemon:
    EXE = "/repo/_build/nzbget"
    DROP = None

    def __init__(self, ctx, hub=None, name="m", opts=(), servers=None, env=None, tcp=False):
        """opts: list of "Name=Value" lines, later ones win."""
        cls = Daemon
        if cls.DROP is None: cls.DROP = can_drop()
        self.ctx, self.hub = ctx, hub
        self.dir = os.path.join(ctx.dir, name)
        self.main = os.path.join(self.dir, "main")
        os.makedirs(self.main, exist_ok=True)
        for d in ("dst", "inter", "tmp", "queue", "nzb", "scripts"): os.makedirs(os.path.join(self.main, d), exist_ok=True)
        self.sockpath = os.path.join(self.dir, "s")
        self.conf = os.path.join(self.dir, "nzbget.conf")
        self.extra_env = dict(env or {})
        self.opts = list(opts)
        self.server_opts = servers
        self.proc = None
        self.c = None
        self.starts = 0
        self.rpc_timeout = 120
        self.own()

    def own(self):
        if self.DROP:
            for d, ds, fs in os.walk(self.dir):
                for n in [d] + [os.path.join(d, f) for f in fs]:
                    try: os.chown(n, NOBODY, NOBODY, follow_symlinks=False)
                    except OSError: pass

    def p(self, *a): return os.path.join(self.main, *a)

    def config_lines(self):
        m = self.main
        l = ["MainDir=" + m, "DestDir=%s/dst" % m, "InterDir=%s/inter" % m, "TempDir=%s/tmp" % m,
             "QueueDir=%s/queue" % m, "NzbDir=%s/nzb" % m, "ScriptDir=%s/scripts" % m,
             "LogFile=%s/log" % m, "LockFile=%s/lock" % m, "WriteLog=append",
             "ControlIP=" + self.sockpath, "ControlPassword=", "WebDir=%s/webui" % build.REPO,
             "ConfigTemplate=%s/nzbget.conf" % build.REPO, "OutputMode=log", "UpdateCheck=none", "FlushQueue=no",
             "CrashTrace=no", "DiskSpace=0", "ArticleInterval=0", "ArticleRetries=0", "UrlInterval=0", "UrlRetries=0",
             "NzbDirFileAge=0", "KeepHistory=30", "Unpack=no", "ParCheck=manual", "HealthCheck=none",
             "UnrarCmd=/usr/bin/unrar", "SevenZipCmd=/usr/bin/7z", "EventInterval=0", "DetailTarget=both",
             "CertCheck=no", "ArticleTimeout=60", "DirectRename=no", "DaemonUsername=nobody"]
        if self.server_opts is not None:
            l += self.server_opts
        elif self.hub is not None:
            for i, s in enumerate(self.hub.servers):
                l += ["Server%d.Host=127.0.0.1" % (i + 1), "Server%d.Port=%d" % (i + 1, s.port),
                      "Server%d.Connections=4" % (i + 1), "Server%d.Username=" % (i + 1), "Server%d.Password=" % (i + 1)]
        return l + self.opts

    def start(self, wait=True):
        with open(self.conf, "w", encoding="utf8", errors="surrogateescape") as f: f.write("\n".join(self.config_lines()) + "\n")
        if self.DROP: os.chown(self.conf, NOBODY, NOBODY); os.chown(self.dir, NOBODY, NOBODY)
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": self.main, "TZ": "UTC",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4096:log_path=%s/asan" % self.dir}
        env.update(self.extra_env)
        self.starts += 1
        self.out = os.path.join(self.dir, "out%d" % self.starts)
        kw = {}
        if self.DROP: kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        with open(self.out, "wb") as o:
            self.proc = subprocess.Popen([Daemon.EXE, "-s", "-c", self.conf], stdin=subprocess.DEVNULL,
                stdout=o, stderr=subprocess.STDOUT, env=env, cwd=self.main, start_new_session=True, **kw)
        if wait: self.wait_up()
        return self

    def wait_up(self, limit=90):
        end = time.time() + limit
        while True:
            try:
                self.rpc("version"); return
            except (OSError, http.client.HTTPException, Died) as e:
                self.c = None
                if self.proc.poll() is not None:
                    raise Fail("the program ended at start (code %s): %s" % (self.proc.returncode, self.tail()))
                if time.time() > end: raise Fail("the program does not answer after start: " + self.tail())
                time.sleep(0.01)

    def tail(self, n=1500):
        r = ""
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("asan"): r += open(os.path.join(self.dir, f), errors="replace").read()[:3000]
        try: r += open(self.out, errors="replace").read()[-n:]
        except OSError: pass
        return r

    def sanitizer(self):
        """the text of a sanitizer report, if there is one"""
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("asan"):
                t = open(os.path.join(self.dir, f), errors="replace").read()
                if t: return t[:4000]
        return None

    def rpc(self, method, *args, raw=False):
        for attempt in (0, 1):
            fresh = self.c is None
            try:
                if fresh: self.c = UHTTP(self.sockpath, self.rpc_timeout)
                self.c.request("POST", "/jsonrpc", json.dumps({"method": method, "params": list(args), "id": 7}).encode("utf8"),
                               {"Connection": "keep-alive", "Content-Type": "application/json"})
                b = self.c.getresponse().read()
                break
            except (OSError, http.client.HTTPException):
                try: self.c.close()
                except Exception: pass
                self.c = None
                if fresh: raise
        if raw: return b
        d = json.loads(b.decode("utf8"))
        if "error" in d and d["error"]: raise RpcError(json.dumps(d["error"]))
        return d["result"]

    def check_alive(self):
        if self.proc.poll() is not None or self.sanitizer():
            raise Fail("the program died (code %s): %s" % (self.proc.poll(), self.tail()))

    def wait(self, cond, what, limit=60, interval=0.01):
        """Waits for a condition.  Giving up is a failure of the property only where the caller says so."""
        end = time.time() + limit
        while True:
            r = cond()
            if r: return r
            if self.proc.poll() is not None or (int(time.time() * 10) % 10 == 0 and self.sanitizer()): self.check_alive()
            if time.time() > end:
                raise Fail("not reached in %d s: %s\n%s" % (limit, what, self.tail()))
            time.sleep(interval); interval = min(0.1, interval * 1.3)

    def append(self, name, doc, category="", priority=0, top=False, paused=False, dupekey="", dupescore=0, dupemode="FORCE", params=()):
        return self.rpc("append", name, base64.b64encode(doc).decode(), category, priority, top, paused, dupekey, dupescore, dupemode,
                        [{k: v} for k, v in params])

    def history(self, hidden=False): return self.rpc("history", hidden)

    def hist(self, nzbid):
        for e in self.rpc("history", True):
            if e["NZBID"] == nzbid: return e
        return None

    def wait_history(self, nzbid, limit=90):
        return self.wait(lambda: self.hist(nzbid), "item %s in history" % nzbid, limit)

    def stop(self, limit=60):
        """Ends the program properly; a sanitizer report or a crash is a failure."""
        if self.proc is None: return
        try: self.rpc("shutdown")
        except (OSError, http.client.HTTPException, ValueError, RpcError): pass
        self.c = None
        try: rc = self.proc.wait(limit)
        except subprocess.TimeoutExpired:
            t = self.tail(); self.kill()
            raise Fail("the program does not end on shutdown: " + t)
        p = self.proc; self.proc = None
        s = self.sanitizer()
        if s or rc < 0 or rc == 99: raise Fail("crash (code %s): %s" % (rc, s or self.tail()))

    def kill(self):
        self.c = None
        if self.proc is not None:
            try: os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError: pass
            self.proc.wait(); self.proc = None

    def close(self, keep=False):
        self.kill()
        if not keep and not os.environ.get("VP_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)


class Case:
    """with Case(ctx, hub, opts=...) as d: a daemon that is cleaned up; an answer missing because the
    program died becomes a failure."""
    def __init__(self, ctx, hub=None, start=True, **kw):
        self.d = Daemon(ctx, hub, **kw); self.auto = start
    def __enter__(self):
        try:
            return self.d.start() if self.auto else self.d
        except BaseException:
            self.d.close(); raise
    def __exit__(self, t, e, tb):
        d = self.d
        try:
            if t is None:
                d.stop()
            elif t is not None and issubclass(t, (OSError, http.client.HTTPException)):
                time.sleep(0.3)
                if d.proc is not None and (d.proc.poll() is not None or d.sanitizer()):
                    raise Fail("the program died (code %s): %s" % (d.proc.poll(), d.tail())) from e
        finally:
            d.close()
        return False


def prepare():
    Daemon.EXE = build.daemon()


def tree(root):
    """{relative path: bytes} of all files below root"""
    r = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            try: r[os.path.relpath(p, root)] = open(p, "rb").read()
            except OSError: r[os.path.relpath(p, root)] = None
    return r


def size64(lo, hi): return (hi << 32) + lo
