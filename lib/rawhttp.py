"""A small HTTP client that sends exactly what it is told, with a chosen source address, over TCP or
a Unix socket, and reads answers strictly by their stated length."""
import base64, http.client, json, os, random, socket, time
from gen import Fail
import e2e


class Closed(Exception):
    pass


class Http:
    def __init__(self, addr, src=None, timeout=60):
        if isinstance(addr, str):
            self.s = socket.socket(socket.AF_UNIX); self.s.settimeout(timeout); self.s.connect(addr)
        else:
            self.s = socket.socket(); self.s.settimeout(timeout)
            if src: self.s.bind((src, 0))
            self.s.connect(addr)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def send(self, b):
        try: self.s.sendall(b)
        except OSError: raise Closed()

    def more(self):
        try: d = self.s.recv(65536)
        except socket.timeout: raise
        except OSError: d = b""
        if not d: raise Closed()
        self.buf += d

    def line(self):
        while b"\n" not in self.buf: self.more()
        l, self.buf = self.buf.split(b"\n", 1)
        return l.rstrip(b"\r")

    def answer(self):
        """-> (status, {lower header: value}, body); Closed when the connection ends before or within it"""
        st = self.line()
        p = st.split(b" ", 2)
        if len(p) < 2 or not p[0].startswith(b"HTTP/1.") or not p[1].isdigit(): raise Fail("not an HTTP answer: %r" % (st + self.buf)[:200])
        h = {}
        while True:
            l = self.line()
            if not l: break
            if b":" not in l: raise Fail("bad header line in answer: %r" % l[:200])
            k, v = l.split(b":", 1)
            k = k.lower().decode("latin1")
            v = v.strip().decode("latin1")
            h[k] = h[k] + "\n" + v if k in h else v
        if "content-length" not in h: raise Fail("answer without Content-Length: %r" % h)
        n = int(h["content-length"])
        while len(self.buf) < n: self.more()
        body, self.buf = self.buf[:n], self.buf[n:]
        return int(p[1]), h, body

    def rest(self):
        """everything until the connection ends"""
        try:
            while True: self.more()
        except Closed: pass
        b, self.buf = self.buf, b""
        return b

    def quiet(self):
        """data that came without being asked for"""
        self.s.setblocking(False)
        try:
            try: d = self.s.recv(65536)
            except OSError: d = b""
        finally: self.s.settimeout(60)
        return self.buf + d

    def close(self):
        try: self.s.close()
        except OSError: pass


def free_port():
    for _ in range(200):
        p = random.SystemRandom().randint(15000, 31000)
        s = socket.socket()
        try: s.bind(("127.0.0.1", p)); return p
        except OSError: pass
        finally: s.close()
    raise RuntimeError("no free port")


class TDaemon(e2e.Daemon):
    """The program on a TCP port with a control user; rpc() uses its credentials."""
    def __init__(self, ctx, user="nzbget", pw="", **kw):
        super().__init__(ctx, **kw)
        self.user, self.pw = user, pw

    def config_lines(self):
        l = [x for x in super().config_lines() if not x.startswith("ControlIP=")]
        return l + ["ControlIP=127.0.0.1", "ControlPort=%d" % self.port]

    def start(self, wait=True):
        for attempt in range(4):
            self.port = free_port()
            try: return super().start(wait)
            except Fail as e:
                t = self.tail()
                if attempt == 3 or "in use" not in t.lower() and "Binding socket failed" not in t: raise
                self.kill()

    def rpc(self, method, *args, raw=False):
        for attempt in (0, 1):
            fresh = self.c is None
            try:
                if fresh: self.c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=self.rpc_timeout)
                self.c.request("POST", "/jsonrpc", json.dumps({"method": method, "params": list(args), "id": 7}).encode("utf8"),
                               {"Connection": "keep-alive", "Authorization": "Basic " + base64.b64encode(("%s:%s" % (self.user, self.pw)).encode()).decode()})
                b = self.c.getresponse().read(); break
            except (OSError, http.client.HTTPException):
                try: self.c.close()
                except Exception: pass
                self.c = None
                if fresh: raise
        if raw: return b
        d = json.loads(b.decode("utf8"))
        if "error" in d and d["error"]: raise e2e.RpcError(json.dumps(d["error"]))
        return d["result"]
