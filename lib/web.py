"""A scripted HTTP server.  hub.answer(path, request) returns a list of byte strings to send one by one
(a number is a pause in seconds, None closes the connection at once)."""
import os, socket, threading, time, random


class WebHub:
    def __init__(self):
        self.lock = threading.Lock()
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0)); self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.alive = True
        self.reset()
        threading.Thread(target=self.accept, daemon=True).start()

    def reset(self):
        self.log = []           # (path, header lines)
        self.handler = None     # path, headers -> list

    def accept(self):
        while self.alive:
            try: c, _ = self.sock.accept()
            except OSError: return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def close(self):
        self.alive = False
        try: self.sock.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.sock.close()

    def serve(self, c):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.settimeout(60)
            b = b""
            while b"\r\n\r\n" not in b:
                r = c.recv(65536)
                if not r: break
                b += r
            lines = b.split(b"\r\n")
            first = lines[0].split(b" ")
            path = first[1].decode("latin1") if len(first) > 1 else ""
            with self.lock:
                self.log.append((path, [l.decode("latin1") for l in lines if l]))
                h = self.handler
            for x in (h(path, lines) if h else []):
                if x is None: break
                if isinstance(x, (int, float)): time.sleep(x)
                elif x: c.sendall(x)
        except OSError:
            pass
        finally:
            try: c.shutdown(socket.SHUT_WR)
            except OSError: pass
            try:
                # an unread rest of the request must not reset the connection
                c.settimeout(0.5)
                while c.recv(65536): pass
            except OSError: pass
            c.close()


def segments(s, data, slow=True):
    """data cut into generated pieces, with short pauses between the first ones"""
    if s.bool(0.4) or not data: return [data]
    out, p, i = [], 0, 0
    while p < len(data):
        n = s.size(1, 4000, (1, 2, 10240)) if i < 10 else len(data) - p
        out.append(data[p:p + n]); p += n; i += 1
        if slow and i < 8 and s.bool(0.7): out.append(s.choice([0.002, 0.01]))
    return out
