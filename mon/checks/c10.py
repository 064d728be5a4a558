"""C10 socket transport is transparent: same messages however the bytes arrive."""

import io
import socket
import threading
import time

from mon import gen, spec
from mon.checks.c08 import compose, config, valid_sentence
from mon.core import show
from mon.lib import ERRS, pynmeagps, snap, reader
from mon.sock import FAULTS, ScriptSocket, segment

SocketWrapper = pynmeagps.SocketWrapper

PROPERTY = "C10"
RULE = (
    "Streams of sentences and noise delivered over scripted sockets (every split point, 1-byte to whole "
    "segments, buffer sizes 1..8192, timeouts/EAGAIN/resets/empty receives between sentences) and real "
    "socketpairs and TCP; the deliveries must equal those of a file. At wrapper level a byte ledger is "
    "checked after every read/readline, the size of every receive against the buffer size, and written bytes (up to 100 kB a write) at the peer. Non-trivial: distinct "
    "(segment sizes, faults, buffer size, operations)."
)
NEED = {"ledger_ops": 50000, "short_reads": 1000, "messages": 15000, "faults": 2000, "splits": 3000,
        "written": 500, "large writes": 80, "real_messages": 500, "lines": 1200, "receives within bufsize": 30000}
QUICK = 8
BUFSIZES = (1, 2, 3, 5, 7, 16, 64, 100, 512, 4096, 8192)


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k)
            for n in ("ledger", "ledger2", "readers", "readers2", "splits", "real", "writes", "threads")]


# ---------------------------------------------------------------- wrapper level
def case_ledger(ctx, script, bufsize, ops):
    """After every operation: returned bytes + buffered bytes == bytes received, in order."""
    with ScriptSocket(script) as sk:
        w = SocketWrapper(sk, bufsize=bufsize)
        out = bytearray()
        total = b"".join(s for s in script if not isinstance(s, str))
        for op in ops + ["drain"]:
            avail = bytes(w.buffer) + sk.available()
            if op == "drain":
                for _ in range(len(total) + len(script) + 2):
                    d = w.read(1)
                    ctx.check(len(d) in (0, 1), "read returned neither all nor nothing")
                    out += d
                    if not d and sk.done:
                        break
                ctx.check(bytes(out) == total, "bytes lost, duplicated or altered",
                          lambda: f"{show(total)} read as {show(bytes(out))}")
            elif op == "line":
                d = w.readline()
                i = avail.find(b"\n")
                if i >= 0:
                    ctx.check(d == avail[:i + 1], "readline is not the next line",
                              lambda: f"{show(avail)}: {show(d)}")
                    ctx.count("lines")
                else:
                    ctx.check(avail.startswith(d), "readline is not the next bytes")
                out += d
            else:
                d = w.read(op)
                if len(avail) >= op:
                    ctx.check(d == avail[:op], "read is not the next bytes",
                              lambda: f"read({op}) of {show(avail)}: {show(d)}")
                else:
                    ctx.check(d == b"", "read returned neither all nor nothing",
                              lambda: f"read({op}) of {show(avail)}: {show(d)}")
                    ctx.count("short_reads")
                out += d
            ctx.check(type(d) is bytes, "not bytes", lambda: repr(type(d)))
            ctx.check(bytes(out) + bytes(w.buffer) == bytes(sk.given), "returned + buffered differ from received",
                      lambda: f"after {op}: returned {show(bytes(out))} buffered {show(bytes(w.buffer))} received "
                              f"{show(bytes(sk.given))}")
            ctx.check(w.in_waiting() == len(w.buffer), "in_waiting differs from buffer")
            ctx.count("ledger_ops")
        sized(ctx, sk, bufsize)
        ctx.count("faults", sk.faults)
        ctx.seen([len(s) if not isinstance(s, str) else s for s in script][:12], bufsize, ops[:6])
        ctx.sample((script[:4], bufsize, ops[:6]))


def sized(ctx, sk, bufsize):
    ctx.check(sk.asked <= bufsize, "receive exceeds the configured buffer size", lambda: f"{sk.asked} > {bufsize}")
    if sk.calls:
        ctx.count("receives within bufsize", sk.calls)


def ledger(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(700)):
        alpha = rng.choice((bytes(range(256)), b"ab\n", b"$GNTXT,1*0\r\n"))
        data = bytes(rng.choice(alpha) for _ in range(rng.choice((0, 1, 5, 60, 400, 3000))))
        script = []
        for s in segment(rng, data):
            while rng.random() < 0.12:
                script.append(rng.choice(list(FAULTS)))
            script.append(s)
        if rng.random() < 0.3:
            script.insert(0, rng.choice(list(FAULTS)))
        ops = [rng.choice(("line", 1, 1, 2, 3, 0, rng.randint(1, 30), rng.randint(1, 600)))
               for _ in range(rng.randint(1, 25))]
        ctx.case("ledger", script=script, bufsize=rng.choice(BUFSIZES), ops=ops)


ledger2 = ledger


def case_write(ctx, data, real, kwargs, bufsize=None):
    if real:
        a, b = socket.socketpair()
        with a, b:
            a.settimeout(5)
            b.settimeout(5)
            b.sendall(b"x")
            r = reader(a, **({"bufsize": bufsize} if bufsize else {}))
            want, got = b"".join(data), bytearray()

            def collect():
                try:
                    while len(got) < len(want):
                        x = b.recv(len(want) - len(got))
                        if not x:
                            break
                        got.extend(x)
                except OSError:  # nothing more came
                    pass
            t = threading.Thread(target=collect, daemon=True)
            t.start()
            counts, total = [], 0
            for d in data:
                total += len(d)
                # with a timeout, send() may take part of the data: the caller sends the rest
                n = r.datastream.write(d)
                counts.append((n, len(d)))
                while isinstance(n, int) and 0 < n < len(d) and len(d) > 4000 and len(counts) < 1000:
                    d = d[n:]
                    n = r.datastream.write(d)
                for _ in range(4000):  # until the peer has it all: a full buffer would take part only
                    if len(got) >= total:
                        break
                    time.sleep(0.001)
            ctx.check(all(n == m or m > 60000 and n > 0 for n, m in counts), "not all bytes written", lambda: repr(counts))
            a.shutdown(socket.SHUT_WR)
            t.join(10)
            got = bytes(got)
            ctx.check(got == want, "written bytes altered", lambda: f"{show(want)} {show(got)}")
    else:
        with ScriptSocket([b"abc"]) as sk:
            w = SocketWrapper(sk, **({"bufsize": bufsize} if bufsize else {}))
            for d in data:
                n = w.write(d, **kwargs)
                ctx.check(n == len(d), "bytes written not reported", lambda: repr(n))
            ctx.check(b"".join(x for x, _, _ in sk.sent) == b"".join(data), "written bytes altered",
                      lambda: show((data, sk.sent)))
            ctx.check(w.read(3) == b"abc", "write disturbed the read side")
    ctx.count("written", len(data))
    ctx.count("large writes", sum(len(d) > 4096 for d in data))
    ctx.seen("write", [len(d) for d in data], real)


def writes(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(120)):
        data = [rng.choice((rng.randbytes(rng.randint(1, 200)), valid_sentence(rng, 0)[:2000],
                            rng.randbytes(rng.choice((0, 4095, 4096, 4097, 8192, 16385, rng.randint(4097, 100000))))))
                for _ in range(rng.randint(1, 6))]
        ctx.case("write", data=data, real=rng.random() < 0.5, kwargs={}, bufsize=rng.choice((None, *BUFSIZES)))


# ---------------------------------------------------------------- reader level
def filewise(data, mode, policy, conf=None):
    r = reader(io.BytesIO(data), msgmode=mode, quitonerror=policy, errorhandler=lambda e: None, **conf or {})
    return pull(r, policy, len(data) + 10, lambda: True)


def pull(r, policy, limit, done):
    """All deliveries until the source is exhausted (timeouts look like end-of-stream)."""
    out = []
    for _ in range(limit):
        try:
            raw, m = r.read()
        except ERRS:
            if policy != 2:
                raise
            continue
        if raw is None and m is None:
            if done():
                return out
            continue
        out.append((raw, m))
    return None


def compare(ctx, out, want, what):
    ctx.check(out is not None, "end of stream not reached", what)
    a, b = [x for x, _ in out], [x for x, _ in want]
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.check(False, "socket delivers other messages than a file",
                  lambda: f"{len(a)} from socket, {len(b)} from file; at {i}: {show(a[i:i + 1])} / {show(b[i:i + 1])}; "
                          + what())
    for (x, m), (_, n) in zip(out, want):
        ctx.check((m is None) == (n is None) and (m is None or snap(m) == snap(n)), "message differs",
                  lambda: f"{x!r}: {m} / {n}")


def case_reader(ctx, script, bufsize, mode, policy, conf=None):
    data = b"".join(s for s in script if not isinstance(s, str))
    want = filewise(data, mode, policy, conf)
    with ScriptSocket(script) as sk:
        r = reader(sk, msgmode=mode, bufsize=bufsize, quitonerror=policy, errorhandler=lambda e: None, **conf or {})
        if conf and conf["userdefined"]:
            ctx.count("user-defined")
        out = pull(r, policy, len(data) + len(script) + 10, lambda: sk.done)
        compare(ctx, out, want, lambda: f"bufsize {bufsize} script {show(script, 1000)}")
        ctx.check(bytes(r.datastream.buffer) == b"", "bytes left unread", lambda: show(bytes(r.datastream.buffer)))
        ctx.count("messages", len(out))
        ctx.count("faults", sk.faults)
        sized(ctx, sk, bufsize)
    ctx.seen([len(s) if not isinstance(s, str) else s for s in script][:12], bufsize, policy)


def script_of(rng, segs, faults=0.3):
    """Network segments with faults only between sentences."""
    script, cur = [], b""
    for _, b in segs:
        cur += b
        # not behind a lone '$', nor inside anything that may look like a sentence
        if rng.random() < faults and cur[-1:] == b"\n":
            script += segment(rng, cur)
            script += [rng.choice(list(FAULTS)) for _ in range(rng.randint(1, 3))]
            cur = b""
    return script + segment(rng, cur)


def readers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(250)):
        mode = rng.choice((0, 0, 1, 2))
        segs = compose(rng, mode, rng.randint(1, 14))
        script = script_of(rng, segs, rng.choice((0, 0.3, 0.8)))
        if rng.random() < 0.3:
            script = [rng.choice(list(FAULTS))] + script
        ctx.case("reader", script=script, bufsize=rng.choice(BUFSIZES), mode=mode, policy=rng.randrange(3),
                 conf=config(rng, b"".join(b for _, b in segs)))


readers2 = readers


def splits(ctx):
    """Two segments, at every split point; three at random pairs."""
    rng = ctx.rng
    for _ in range(ctx.n(4)):
        mode = rng.choice((0, 1, 2))
        while True:
            data = b"".join(b for _, b in compose(rng, mode, rng.randint(2, 5)))
            if 50 < len(data) < 800:
                break
        for cut in range(len(data) + 1):
            ctx.count("splits")
            ctx.case("reader", script=[data[:cut], data[cut:]], bufsize=rng.choice((3, 64, 4096)), mode=mode,
                     policy=rng.randrange(3))
        for _ in range(100):
            i, j = sorted((rng.randint(0, len(data)), rng.randint(0, len(data))))
            ctx.count("splits")
            ctx.case("reader", script=[data[:i], data[i:j], data[j:]], bufsize=rng.choice((1, 16, 4096)), mode=mode,
                     policy=0)


# ---------------------------------------------------------------- real sockets
def case_real(ctx, groups, bufsize, mode, tcp):
    """Groups of whole segments sent one at a time; the reader times out in between."""
    data = b"".join(b for g in groups for b in g)
    want = filewise(data, mode, 0)
    a, b = pair(tcp)
    with a, b:
        a.settimeout(0.02)
        if groups and rng_first(groups):
            b.sendall(groups[0][0])
            groups = [groups[0][1:]] + groups[1:]
        r = reader(a, msgmode=mode, bufsize=bufsize, quitonerror=0)
        out = []
        for g in groups:
            for s in g:
                b.sendall(s)
            # a loaded machine may delay loopback delivery: wait until it has arrived
            o = pull(r, 0, len(data) + 100, counter(2))
            ctx.check(o is not None, "end of stream not reached")
            out += o
        b.shutdown(socket.SHUT_WR)
        out += pull(r, 0, len(data) + 100, counter(1))
    compare(ctx, out, want, lambda: show(groups))
    ctx.count("real_messages", len(out))
    ctx.seen("real", [len(g) for g in groups], bufsize, tcp)


def rng_first(groups):
    return len(groups[0]) > 1


def counter(n):
    left = [n]

    def done():
        left[0] -= 1
        return left[0] <= 0
    return done


def pair(tcp):
    if not tcp:
        return socket.socketpair()
    with socket.socket() as srv:
        srv.bind(("127.0.0.1", 0))
        srv.listen(1)
        a = socket.create_connection(srv.getsockname())
        b, _ = srv.accept()
    b.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return a, b


def real(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8)):
        mode = 0
        groups = []
        for _ in range(rng.randint(1, 3)):
            segs = compose(rng, mode, rng.randint(1, 8))
            groups.append([x for _, x in segs] + [b"\r\n"])
        if sum(len(x) for g in groups for x in g) > 50000:
            continue  # must fit in the socket's buffer
        ctx.case("real", groups=groups, bufsize=rng.choice(BUFSIZES), mode=mode, tcp=False)


def case_threaded(ctx, segs, bufsize, tcp):
    """A sender thread pushes segments while the reader blocks (no timeout)."""
    data = b"".join(segs)
    want = filewise(data, 0, 0)
    a, b = pair(tcp)
    with a, b:
        a.settimeout(20)

        def push():
            try:
                for s in segs:
                    b.sendall(s)
                b.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        t = threading.Thread(target=push, daemon=True)
        t.start()
        r = reader(a, bufsize=bufsize, quitonerror=0)
        out = pull(r, 0, len(data) + 100, lambda: True)
        compare(ctx, out, want, lambda: show(segs))
        t.join(20)
    ctx.count("real_messages", len(out))
    ctx.seen("threaded", [len(s) for s in segs][:12], bufsize, tcp)


def threads(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(20)):
        data = b"".join(b for _, b in compose(rng, 0, rng.randint(3, 30)))
        ctx.case("threaded", segs=segment(rng, data, rng.choice(("any", "big", "whole"))),
                 bufsize=rng.choice((16, 100, 4096)), tcp=rng.random() < 0.5)
