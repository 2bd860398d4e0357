"""A small HTTP server on the loopback, whose every answer is scripted: what the body
is, into which pieces it is cut, how it is framed, and how it fails."""
import base64, socket, threading, time

CRLF = b"\r\n"


class Res:
    """One served path.  frame: length | chunked | close; brk: bytes of the body sent before the
    connection is dropped (None: all); ranges: honour | ignore | shift (answer another range);
    status: of the answer; auth: user:password required; redirect: another path first;
    pieces: lengths of the pieces sent, cyclic; delay: seconds between them."""

    def __init__(self, body, pieces=(65536,), delay=0.0, frame="length", brk=None, ranges="honour", status=200, auth=None, redirect=None, trailer=False, errbody=b"no such thing\n", lower=False):
        self.body, self.pieces, self.delay, self.frame, self.brk = body, list(pieces), delay, frame, brk
        self.ranges, self.status, self.auth, self.redirect, self.trailer, self.errbody = ranges, status, auth, redirect, trailer, errbody
        self.lower = lower
        self.seen = []


class Server:
    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        d = socket.socket()
        d.bind(("127.0.0.1", 0))
        self.dead = d  # bound but not listening: connections are refused
        self.deadport = d.getsockname()[1]
        self.res = {}
        threading.Thread(target=self.loop, daemon=True).start()

    def url(self, path):
        return "http://127.0.0.1:%d%s" % (self.port, path)

    def refused(self, path):
        return "http://127.0.0.1:%d%s" % (self.deadport, path)

    def put(self, path, res):
        self.res[path] = res
        return path

    def close(self):
        self.s.close()
        self.dead.close()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.settimeout(60)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, _, buf = buf.partition(b"\r\n\r\n")
                if not self.answer(c, head):
                    return
        except (OSError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def simple(self, c, status, hdr=b"", body=b""):
        c.sendall(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\n%s\r\n" % (status, len(body), hdr) + body)
        return True

    def answer(self, c, head):
        lines = head.split(CRLF)
        path = lines[0].split()[1].decode()
        h, xs = {}, []
        for x in lines[1:]:
            k, _, v = x.partition(b":")
            if k.lower().startswith((b"x-", b"user-agent")):
                xs.append(x.decode("latin-1"))
            h[k.strip().lower().decode()] = v.strip().decode("latin-1")
        r = self.res.get(path)
        if r is None:
            return self.simple(c, 404, body=b"not found")
        r.seen.append(xs)
        if r.redirect:
            return self.simple(c, 302, b"Location: %s\r\n" % r.redirect.encode(), b"moved")
        if r.auth and h.get("authorization") != "Basic " + base64.b64encode(r.auth.encode()).decode():
            return self.simple(c, 401, b'WWW-Authenticate: Basic realm="x"\r\n', b"unauthorized")
        if r.status >= 400:
            return self.simple(c, r.status, body=r.errbody)
        body, hdr, status = r.body, b"", r.status
        rg = h.get("range", "")
        if rg.startswith("bytes=") and r.ranges != "ignore":
            a, _, b = rg[6:].partition("-")
            a = int(a or 0)
            if r.ranges == "align":
                a -= a % 64
            b = min(int(b) if b else len(body) - 1, len(body) - 1)
            if a >= len(body) or b < a:
                return self.simple(c, 416, b"Content-Range: bytes */%d\r\n" % len(body))
            body, status, hdr = body[a:b + 1], 206, b"Content-Range: bytes %d-%d/%d\r\n" % (a, b, len(body))
        if r.lower:
            hdr = hdr.replace(b"Content-Range", b"content-range")
        head = b"HTTP/1.1 %d OK\r\n%s" % (status, hdr)
        if r.frame == "length":
            head += b"Content-Length: %d\r\n" % len(body)
        elif r.frame == "chunked":
            head += b"Transfer-Encoding: chunked\r\n" + (b"Trailer: Content-Range\r\n" if r.trailer else b"")
        else:
            head += b"Connection: close\r\n"
        c.sendall(head + CRLF)
        send = body if r.brk is None else body[:r.brk]
        pos = i = 0
        while pos < len(send):
            if r.delay and i:
                time.sleep(r.delay)
            p = send[pos:pos + r.pieces[i % len(r.pieces)]]
            pos += len(p)
            i += 1
            c.sendall(b"%x\r\n" % len(p) + p + CRLF if r.frame == "chunked" else p)
        if r.brk is not None and (r.frame != "close"):
            return False
        if r.frame == "chunked":
            c.sendall(b"0\r\n" + (b"Content-Range: bytes 7-9/10\r\n" if r.trailer else b"") + CRLF)
        return r.frame != "close"
