"""C31 a reader waiting for data holds up nothing else."""

import io
import os
import queue
import random
import select
import socket
import sys
import threading
import time
import zlib

from mon import gen, spec
from mon.checks.c08 import bad_line, valid_sentence
from mon.checks.c13 import canon, operation, perform, user_pool
from mon.core import show
from mon.lib import ERRS, ByteStream, NMEAReader, parse, snap

PROPERTY = "C31"
RULE = (
    "One or more threads wait inside readers: in the constructor on a silent socket, for the first or second byte, in the "
    "middle of a line or chunk, from sockets (plain, with a timeout, chunked, compressed), pipes and caller's streams, or in the error "
    "handler; meanwhile other threads parse, build, convert, read other streams and sockets, make readers, write to the "
    "very socket or stream and ask what is waiting: all must finish, with the results they have otherwise, while the "
    "first still waits; then the data comes and the waiting read must return its sentence. Conversations: 1-4 threads send "
    "numbered commands over the transport a reader thread waits on, each waiting for its reply before the next; the device "
    "records what arrives. Non-trivial: distinct (way of waiting, operation)."
)
NEED = {"waits": 150, "meanwhile": 4000, "writes": 300, "released": 150, "conversations": 50, "commands": 1000, "replies": 1000,
        "ways": 12}
QUICK = 4
CPU_PER_CASE = 120.0
STUCK = []  # what was held up: once something is, the rest need not be waited for so long


def limit(k=1):
    return (3.0 if STUCK else 30.0) * k


class WatchedSocket(socket.socket):
    """A real socket that tells when somebody waits for it to receive."""

    @classmethod
    def pair(cls, timeout=None):
        a, b = socket.socketpair()
        a = cls(a.family, a.type, a.proto, a.detach())
        a.waiting = threading.Event()
        a.settimeout(timeout)
        b.settimeout(limit())
        return a, b

    def _watch(self):
        if not select.select([self.fileno()], [], [], 0)[0]:
            self.waiting.set()

    def recv(self, *args):
        self._watch()
        return super().recv(*args)

    def recv_into(self, *args):
        self._watch()
        return super().recv_into(*args)


class DuplexStream:
    """As a serial port: reading waits until there is something, writing is recorded."""

    def __init__(self):
        self.data = bytearray()
        self.cond = threading.Condition()
        self.waiting = threading.Event()
        self.sent = queue.Queue()
        self.closed = False

    def feed(self, data):
        with self.cond:
            self.data += data
            self.waiting.clear()
            self.cond.notify_all()

    def close(self):
        with self.cond:
            self.closed = True
            self.cond.notify_all()

    def _take(self, ready):
        with self.cond:
            while True:
                n = ready()
                if n is None and self.closed:
                    n = len(self.data)
                if n is not None:
                    out = bytes(self.data[:n])
                    del self.data[:n]
                    return out
                self.waiting.set()
                self.cond.wait(100)

    def read(self, size=1):
        return self._take(lambda: size if len(self.data) >= size else None)

    def readline(self):
        return self._take(lambda: self.data.index(10) + 1 if 10 in self.data else None)

    def write(self, data):
        self.sent.put(bytes(data))
        return len(data)

    @property
    def in_waiting(self):
        return len(self.data)


def chunk(data, encoding=1):
    if encoding & 2:
        c = zlib.compressobj(wbits=31)
        data = c.compress(data) + c.flush()
    elif encoding & 8:
        c = zlib.compressobj(wbits=-15)
        data = c.compress(data) + c.flush()
    return b"%x\r\n%s\r\n" % (len(data), data)


WAYS = ["constructor", "socket first", "socket second", "socket line", "socket timeout", "chunked size", "chunked data", "gzip data",
        "deflate end", "stream first", "stream second", "stream line", "pipe first", "pipe line", "handler", "stream handler"]


class Waiter:
    """A thread inside a reader, waiting."""

    def __init__(self, way, raw, junk):
        self.way, self.raw = way, raw
        self.result, self.reader = [], None
        self.sock = self.peer = self.stream = self.wfd = None
        self.entered, self.go = threading.Event(), threading.Event()
        self.made = threading.Event()
        head, tail, enc = b"", raw, 0
        if "second" in way:
            head, tail = raw[:1], raw[1:]
        elif "line" in way:
            k = 3 + len(raw) // 2
            head, tail = raw[:k], raw[k:]
        elif way in ("chunked size", "chunked data", "gzip data", "deflate end"):
            enc = {"gzip data": 3, "deflate end": 9}.get(way, 1)
            c = chunk(raw, enc)
            k = {"chunked size": 1, "deflate end": len(c) - 3}.get(way, len(c) // 2)
            head, tail = c[:k], c[k:]
        handler = None
        if "handler" in way:
            head, tail = junk + raw, b""

            def handler(err):
                self.entered.set()
                self.go.wait(100)
        kw = {"quitonerror": 1 if handler else 0, "errorhandler": handler}
        if way.startswith("stream"):
            self.stream = DuplexStream()
            self.waiting = self.stream.waiting
            self.feed = self.stream.feed
            src = self.stream
        elif way.startswith("pipe"):
            rd, self.wfd = os.pipe()
            src = self.stream = os.fdopen(rd, "rb")
            self.waiting = threading.Event()
            self.feed = lambda d: os.write(self.wfd, d)
        else:
            self.sock, self.peer = WatchedSocket.pair(60.0 if way == "socket timeout" else None)
            self.waiting = self.sock.waiting
            self.feed = self.peer.sendall
            src = self.sock
            kw["encoding"] = enc
            if way != "constructor":
                head = head or (b"!!\r\n" if not enc else b"")  # what the constructor receives
        if handler:
            self.waiting = self.entered
        if head:
            self.feed(head)
        self.tail = tail

        def work():
            try:
                self.reader = NMEAReader(src, **kw)
                self.made.set()
                self.result.append(self.reader.read())
            except BaseException as err:  # noqa
                self.result.append(err)
        self.thread = threading.Thread(target=work, daemon=True)
        self.thread.start()

    def wait(self):
        """Until it waits."""
        if self.way.startswith("pipe"):
            self.made.wait(limit())
            time.sleep(0.01)
            return self.thread.is_alive()
        return noted(self.waiting.wait(limit()) and (self.way == "constructor" or self.made.wait(limit())))

    def release(self):
        self.go.set()
        if self.tail:
            self.feed(self.tail)
        self.thread.join(limit())
        return noted(not self.thread.is_alive())

    def close(self):
        self.go.set()
        for x in (self.peer,):
            if x is not None:
                x.close()
        if isinstance(self.stream, DuplexStream):
            self.stream.close()
        if self.wfd is not None:
            os.close(self.wfd)
        self.thread.join(2)
        if not self.thread.is_alive():
            for x in (self.sock, self.stream):
                if x is not None:
                    x.close()


def noted(good):
    if not good:
        STUCK.append(1)
    return good


def finished(fn, *args):
    """Result of fn(*args) in another thread, or None if it does not come back."""
    out = []

    def work():
        try:
            out.append(("ok", fn(*args)))
        except BaseException as err:  # noqa
            out.append(("raised", repr(err)))
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(limit())
    noted(out)
    return out[0] if out else None


def elsewhere(raw, bad):
    """Other readers, of every kind of stream."""
    out = []
    for src in (io.BytesIO(bad + raw), ByteStream(raw), io.BufferedReader(io.BytesIO(raw))):
        errs = []
        out.append(canon(NMEAReader(src, quitonerror=1, errorhandler=errs.append).read()))
        out.append(repr(errs))
    for policy in (1, 2):
        try:
            out.append(canon(NMEAReader(io.BytesIO(bad + raw), quitonerror=policy).read()))
        except ERRS as err:
            out.append(repr(err))
    for enc in (0, 1, 3):
        a, b = socket.socketpair()
        with a, b:
            b.sendall(raw if not enc else chunk(raw, enc))
            r = NMEAReader(a, encoding=enc, quitonerror=0)
            out.append(canon(r.read()))
            r.datastream.write(b"ping")
            out.append(b.recv(99))
            b.close()
            out.append(r.read())
    return out


def case_waits(ctx, ways, raws, junk, ops, raw, bad):
    for op in ops:
        op[1] = list(op[1])
    want = [perform(op)[0] for op in ops]
    other = elsewhere(raw, bad)
    ws = [Waiter(w, x, junk) for w, x in zip(ways, raws)]
    try:
        for w in ws:
            ctx.check(w.wait() and not w.result, "the reader did not wait", lambda: f"{w.way}: {show(w.result)}")  # noqa: B023
        names = "+".join(ways)
        got = finished(lambda: [perform(op)[0] for op in ops])
        ctx.check(got is not None, "operations are held up by a waiting reader", lambda: f"{names}: {show([o[:1] for o in ops], 600)}")
        for op, a, b in zip(ops, want, got[1]):
            ctx.check(a == b, "result differs while a reader waits", lambda: f"{names}: {show(op)}: {show(a)} {show(b)}")  # noqa: B023
            ctx.seen(ways[0], op[0], str(op[1])[:14])
        ctx.count("meanwhile", len(ops))
        got = finished(elsewhere, raw, bad)
        ctx.check(got is not None, "other readers are held up by a waiting reader", names)
        ctx.check(got == ("ok", other), "other readers are disturbed by a waiting reader", lambda: f"{names}: {show(got)} {show(other)}")
        ctx.count("meanwhile", len(other))
        for w in ws:
            if w.reader is None:
                continue
            ds = finished(lambda: w.reader.datastream)  # noqa: B023
            ctx.check(ds is not None and ds[0] == "ok", "datastream is held up by a waiting reader", w.way)
            ctx.check(finished(str, w.reader) is not None, "text form is held up", w.way)
            if w.sock is not None or isinstance(w.stream, DuplexStream):
                st = ds[1]
                res = finished(st.write, b"$PQTMVERNO*58\r\n")
                ctx.check(res is not None and res[0] == "ok", "writing is held up by a waiting reader", lambda: f"{w.way}: {res}")  # noqa: B023
                arrived = w.peer.recv(99) if w.sock is not None else w.stream.sent.get(timeout=limit())
                ctx.check(arrived == b"$PQTMVERNO*58\r\n", "written bytes changed", lambda: f"{w.way}: {arrived!r}")  # noqa: B023
                ctx.count("writes")
            if w.sock is not None:
                n = finished(ds[1].in_waiting)
                ctx.check(n is not None and n[0] == "ok", "in_waiting is held up by a waiting reader", lambda: f"{w.way}: {n}")  # noqa: B023
        for w in ws:
            ctx.check(not w.result, "the reader did not wait for its data", lambda: f"{w.way}: {show(w.result)}")  # noqa: B023
        order = list(ws)
        ctx.rng.shuffle(order)
        for w in order:
            ctx.check(w.release(), "the waiting read does not return when the data is there", w.way)
            k, m = parse(w.raw)
            x = w.result[0]
            ctx.check(type(x) is tuple and x[0] == w.raw and snap(x[1]) == snap(m), "the waiting read returned something else",
                      lambda: f"{w.way}: {show(x)} {w.raw!r}")  # noqa: B023
            ctx.sample((w.way, w.raw))
            ctx.count("released")
            ctx.count("waits")
    finally:
        for w in ws:
            w.close()


def sentence(rng):
    while True:
        raw = valid_sentence(rng, 0)
        if len(raw) < 300 and raw.count(b"$") == 1 and parse(raw)[0] == "msg":
            return raw if raw[-2:] == b"\r\n" else raw[:-1] + b"\r\n"


def waits(ctx):
    rng = ctx.rng
    ctx.count("ways", len(WAYS) if ctx.job == "waits#0" else 0)
    for i in range(ctx.n(48)):
        n = rng.choice((1, 1, 2, 4))
        ways = [WAYS[i % len(WAYS)]] + [rng.choice(WAYS) for _ in range(n - 1)]
        users = user_pool(rng)
        while True:
            bad = bad_line(rng, 0)
            if bad.count(b"$") == 1 and bad.endswith(b"\n") and parse(bad)[0] == "err":
                break
        ctx.case("waits", ways=ways, raws=[sentence(rng) for _ in ways], junk=bad, ops=[operation(rng, users) for _ in range(25)],
                 raw=sentence(rng), bad=bad)


def together(threads, wait):
    """All threads end within this time."""
    end = time.monotonic() + wait
    for t in threads:
        while t.is_alive() and time.monotonic() < end:
            t.join(min(0.5, max(0.0, end - time.monotonic())))
            if STUCK:
                end = min(end, time.monotonic() + 6)
    noted(not any(t.is_alive() for t in threads))


def lines(fn):
    """Complete lines of a receiving function."""
    buf = b""
    while True:
        while b"\n" in buf:
            line, buf = buf.split(b"\n", 1)
            yield line + b"\n"
        d = fn()
        if not d:
            return
        buf += d


def case_talk(ctx, kind, hosts, each, seed, readers, unasked):
    """Request and response over one transport."""
    rng = random.Random(seed)
    enc = {"chunked": 1, "gzip": 3}.get(kind, 0)
    if kind == "stream":
        src = DuplexStream()
        put = src.feed

        def take():
            try:
                return src.sent.get(timeout=limit())
            except queue.Empty:
                return b""
    else:
        src, peer = WatchedSocket.pair()

        def take():
            try:
                return peer.recv(rng.choice((7, 64, 4096)))
            except OSError:
                return b""

        def put(d):
            if enc:
                d = chunk(d, enc)
            k = rng.randint(0, len(d))
            for x in (d[:k], d[k:]):
                if x:
                    peer.sendall(x)
    arrived, said, problems = [], [], []
    put(b"!\r\n" if not enc else chunk(b"!\r\n", enc) if kind == "stream" else b"!\r\n")
    total = hosts * each

    def device():
        try:
            for line in lines(take):
                arrived.append(line)
                for _ in range(unasked if len(arrived) % 3 == 0 else 0):
                    x = spec.frame("GN", "TXT", ["01", "01", "02", f"n{len(said)}"])
                    said.append(x)
                    put(x)
                k, m = parse(line, 2)
                x = spec.frame("GN", "TXT", ["01", "01", "02", "re" + line[6:line.index(b"*")].decode()])
                said.append(x)
                put(x)
                if len(arrived) == total:
                    return
        except Exception as err:
            problems.append(("device", repr(err)))
            STUCK.append(1)
    r = NMEAReader(src, encoding=enc, quitonerror=0)
    got, answers = [[] for _ in range(readers)], {}
    cond = threading.Condition()
    stop = threading.Event()

    def listen(i):
        try:
            while not stop.is_set():
                raw, m = r.read()
                if raw is None:
                    return
                with cond:
                    got[i].append(raw)
                    answers[m.text] = answers.get(m.text, 0) + 1
                    cond.notify_all()
        except Exception as err:
            problems.append(("reader", repr(err)))
            STUCK.append(1)

    def ask(i):
        try:
            for n in range(each):
                r.datastream.write(spec.frame("P", "XYZ", [f"{i}-{n}"]))
                with cond:
                    if not cond.wait_for(lambda: f"re{i}-{n}" in answers, limit()):  # noqa: B023
                        STUCK.append(1)
                        problems.append(("no reply", i, n))
                        return
        except Exception as err:
            problems.append(("host", repr(err)))
            STUCK.append(1)
    dev = threading.Thread(target=device, daemon=True)
    ls = [threading.Thread(target=listen, args=(i,), daemon=True) for i in range(readers)]
    hs = [threading.Thread(target=ask, args=(i,), daemon=True) for i in range(hosts)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    try:
        for t in [dev] + ls + hs:
            t.start()
        together(hs + [dev], limit(2))
        stop.set()
        if kind == "stream":
            src.close()
        else:
            peer.close()
        together(ls, limit())
        what = lambda: f"{kind} {hosts} hosts {readers} readers: {show(problems, 600)}, {len(arrived)} of {total} commands, {len(said)} said"  # noqa: E731
        ctx.check(not any(t.is_alive() for t in hs + ls), "the conversation does not end", what)
        ctx.check(not problems, "the conversation failed", what)
        sent = sorted(spec.frame("P", "XYZ", [f"{i}-{n}"]) for i in range(hosts) for n in range(each))
        ctx.check(sorted(arrived) == sent, "commands lost, repeated or spliced", lambda: f"{what()} {show(arrived, 900)}")
        order = {x: i for i, x in enumerate(said)}
        ctx.check(all(a in order for g in got for a in g) and all([order[a] for a in g] == sorted(order[a] for a in g) for g in got),
                  "replies spoilt or out of order", lambda: f"{what()} {show(got, 900)}")
        everything = [a for g in got for a in g]
        ctx.check(len(everything) == len(set(everything)) == len(said), "replies lost or repeated", lambda: f"{what()} {show(got, 900)}")
        ctx.count("conversations")
        ctx.count("commands", len(arrived))
        ctx.count("replies", len(everything))
        ctx.seen("talk", kind, hosts, readers, unasked, [len(g) for g in got])
    finally:
        sys.setswitchinterval(old)
        stop.set()
        src.close()
        if kind != "stream":
            peer.close()


def talks(ctx):
    rng = ctx.rng
    for i in range(ctx.n(15)):
        ctx.case("talk", kind=("socket", "stream", "chunked", "gzip")[i % 4], hosts=rng.choice((1, 2, 4)), each=rng.randint(3, 25),
                 seed=rng.randrange(2**32), readers=rng.choice((1, 1, 3)), unasked=rng.choice((0, 0, 2)))


talks2 = talks
waits2 = waits


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("waits", "waits2", "talks", "talks2")]
