"""C14 a reader shared by threads delivers every sentence exactly once, uncorrupted."""

import io
import os
import random as _random
import socket
import sys
import threading
import time

from mon.checks.c08 import compose, config, valid_sentence
from mon.checks.c11 import pack, size_line
from mon.core import Inconclusive, show
from mon.lib import ERRS, parse, snap, reader as make_reader

PROPERTY = "C14"
RULE = (
    "2-8 threads (the creating one among them or not) call read()/iterate one shared reader over a thread-safe stream (locked in-memory stream "
    "that yields, sleeps or stalls until another thread enters it around every operation; BytesIO; pipe and "
    "socketpair fed while reading), over valid sentences, noise and bad lines, all policies, some waiting for seconds. Recorded "
    "histories: exactly once, intact, per-thread stream order, one report per bad line, every thread sees the "
    "end. Non-trivial: distinct sequences of the thread that performed each stream operation."
)
NEED = {"delivered": 5000, "thread_switches": 1000, "interleavings": 50, "stalls": 100, "reports": 500,
        "ended_threads": 500, "readers in the creating thread": 200, "long waits": 6, "configured": 100, "chunked": 4}
QUICK = 8


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k)
            for n in ("locked", "locked2", "locked3", "locked4", "plain", "piped", "socketed", "iterated", "slow")]


class LockedStream:
    """Thread-safe stream whose every operation is a scheduling point."""

    def __init__(self, data, seed, intensity):
        self.io = io.BytesIO(data)
        self.lock = threading.Lock()
        self.rng = _random.Random(seed)
        self.intensity = intensity
        self.log = []  # thread of each operation
        self.entered = 0
        self.stalls = 0
        self.naps = {}  # operation number: seconds it takes

    def _pause(self):
        k = self.rng.random()
        if k < 0.3 * self.intensity:
            time.sleep(0)
        elif k < 0.34 * self.intensity:
            time.sleep(0.0001)
        elif k < 0.38 * self.intensity:
            # wait for another thread to get in (it cannot if the reader serializes)
            self.stalls += 1
            seen = self.entered
            end = time.monotonic() + 0.0008
            while self.entered == seen and time.monotonic() < end:
                time.sleep(0)

    def _op(self, fn, *args):
        with self.lock:
            self.entered += 1
        self._pause()
        with self.lock:
            self.log.append(threading.get_ident())
            d = fn(*args)
            nap = self.naps.pop(len(self.log), 0)
        if nap:
            time.sleep(nap)
        self._pause()
        return d

    def read(self, n):
        return self._op(self.io.read, n)

    def readline(self):
        return self._op(self.io.readline)


def case_shared(ctx, segs, mode, policy, nthreads, kind, seed, iterate, intensity, here=False, naps=None, conf=None):
    """here: the thread that made the reader is itself one of the readers; naps: {operation: seconds}."""
    data = b"".join(b for _, b in segs)
    conf = dict(conf or {})
    flags, user = conf.get("validate", 1), conf.get("userdefined")
    judged = [(parse(b, mode, flags, user)[0] if conf or k == "bad" else "msg", b) for k, b in segs if k != "noise"]
    valid = [b for o, b in judged if o == "msg"]
    order = {b: i for i, b in enumerate(valid)}
    bads = {}
    nreports = sum(1 for o, _ in judged if o == "err")
    for o, b in judged:
        if o == "none":
            bads[b] = bads.get(b, 0) + 1
    if conf.get("nmeaonly"):
        nreports += sum(b.count(b"$") for k, b in segs if k == "noise")
    if conf:
        ctx.count("configured")
    if kind == "socket" and conf.get("encoding"):
        r, out, i = _random.Random(seed), b"", 0
        while i < len(data):
            n = r.choice((1, r.randint(1, 100), r.randint(1, 2000)))
            chunk = pack(data[i:i + n], conf["encoding"])
            out += size_line(len(chunk), r.randrange(4)) + chunk + b"\r\n"
            i += n
        data = out + r.choice((b"", b"0\r\n\r\n"))
        ctx.count("chunked")
    closers = []
    feeder = None
    st = None
    if kind == "locked":
        src = st = LockedStream(data, seed, intensity)
        if naps:
            st.naps = {int(k): v for k, v in naps.items()}
            ctx.count("long waits", len(naps))
    elif kind == "bytesio":
        src = io.BytesIO(data)
    elif kind == "pipe":
        rd, wr = os.pipe()
        src = os.fdopen(rd, "rb")
        closers.append(src)

        def feed():
            try:
                with os.fdopen(wr, "wb", buffering=0) as f:
                    r = _random.Random(seed)
                    i = 0
                    while i < len(data):
                        n = r.randint(1, 200)
                        f.write(data[i:i + n])
                        i += n
                        time.sleep(0)
            except OSError:
                pass
        feeder = threading.Thread(target=feed, daemon=True)
    else:
        a, b = socket.socketpair()
        src = a
        closers += [a, b]

        def feed():
            try:
                r = _random.Random(seed)
                i = 0
                while i < len(data):
                    n = r.randint(1, 200)
                    b.sendall(data[i:i + n])
                    i += n
                b.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        feeder = threading.Thread(target=feed, daemon=True)
    if feeder:
        feeder.start()
    reports = []
    if kind != "socket":
        conf.pop("encoding", None)
    reader = make_reader(src, msgmode=mode, quitonerror=policy, errorhandler=lambda e: reports.append(repr(e)), **conf)
    got = [[] for _ in range(nthreads)]
    fate = [None] * nthreads
    gate = threading.Barrier(nthreads)
    limit = len(segs) + 20

    def work(t):
        try:
            gate.wait(60)
            it = iter(reader) if iterate else None
            for _ in range(limit + nreports):
                try:
                    if iterate:
                        try:
                            raw, m = next(it)
                        except StopIteration:
                            fate[t] = "end"
                            return
                    else:
                        raw, m = reader.read()
                    if raw is None and m is None:
                        fate[t] = "end"
                        return
                    got[t].append((raw, m))
                except ERRS as err:
                    reports.append(repr(err))
                    if policy != 2:
                        fate[t] = f"raised {err!r}"
                        return
            fate[t] = "endless"
        except BaseException as err:  # noqa
            fate[t] = f"raised {err!r}"

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nthreads)]
    try:
        for t in ts[here:]:
            t.start()
        if here:
            work(0)
            ctx.count("readers in the creating thread")
        end = time.monotonic() + 120
        for t in ts[here:]:
            t.join(max(0.1, end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    for t in range(nthreads):
        if ts[t].is_alive():
            ctx.hung = True
            ctx.check(False, "thread does not end", lambda: show(segs, 800))
        ctx.check(fate[t] == "end", "thread does not end at end of stream", lambda: f"{fate[t]}: {show(segs, 800)}")
        ctx.count("ended_threads")
    seen = {}
    for t in range(nthreads):
        last = -1
        for raw, m in got[t]:
            if m is None:
                ctx.check(bads.get(raw, 0) > 0, "unknown data returned", lambda: f"{raw!r}")
                bads[raw] -= 1
                continue
            ctx.check(raw in order, "sentence not in stream (spliced)", lambda: f"{raw!r} {show(segs, 800)}")
            ctx.check(raw not in seen, "sentence delivered twice", lambda: f"{raw!r}")
            seen[raw] = t
            ctx.check(order[raw] > last, "thread sees sentences out of order", lambda: f"{raw!r}")
            last = order[raw]
            k, d = parse(raw, mode, flags, user)
            ctx.check(k == "msg" and snap(d) == snap(m), "message differs from direct parsing", lambda: f"{raw!r} {m}")
            ctx.count("delivered")
    missing = [b for b in valid if b not in seen]
    ctx.check(not missing, "sentences lost", lambda: f"{len(missing)} of {len(valid)}: {show(missing[:3])}")
    if policy:
        ctx.check(len(reports) == nreports, "error reports differ from bad lines in stream",
                  lambda: f"{len(reports)} reports, {nreports} bad lines: {show(reports, 600)}")
    ctx.count("reports", len(reports))
    if st is not None:
        ids = {}
        seq = tuple(ids.setdefault(x, len(ids)) for x in st.log)
        sw = sum(1 for x, y in zip(seq, seq[1:]) if x != y)
        ctx.count("thread_switches", sw)
        ctx.count("stalls", st.stalls)
        if sw:
            ctx.count("interleavings")
        ctx.seen(seq)
    else:
        ctx.seen(kind, tuple(seen.get(b) for b in valid))
    for c in closers:
        c.close()
    ctx.sample([len(g) for g in got])


def go(ctx, n, kinds, iterate=None, lo=5, hi=30):
    rng = ctx.rng
    for _ in range(ctx.n(n)):
        mode = rng.choice((0, 0, 1, 2))
        segs = compose(rng, mode, rng.randint(lo, hi))
        if sum(len(b) for _, b in segs) > 40000:
            continue
        conf = None
        bs = [b for k, b in segs if k != "noise"]
        if rng.random() < 0.4 and len(set(bs)) == len(bs):
            if segs[-1][1][-1:] == b"$":
                segs.append(("noise", b"\x01"))
            conf = dict(config(rng, b"".join(b for _, b in segs)), encoding=rng.choice((0, 1, 1, 3, 5, 9)))
        ctx.case("shared", segs=segs, mode=mode, policy=rng.randrange(3), conf=conf, nthreads=rng.choice((2, 2, rng.randint(2, 8))),
                 kind=rng.choice(kinds), seed=rng.randrange(10**9), here=rng.random() < 0.4,
                 iterate=rng.random() < 0.5 if iterate is None else iterate,
                 intensity=rng.choice((0.3, 1, 1, 2)))


def locked(ctx):
    go(ctx, 30, ("locked",))


locked2 = locked3 = locked4 = locked


def plain(ctx):
    go(ctx, 60, ("bytesio",), lo=50, hi=150)


def piped(ctx):
    go(ctx, 30, ("pipe",), lo=20, hi=80)


def socketed(ctx):
    go(ctx, 30, ("socket",), lo=20, hi=80)


def slow(ctx):
    """Some sentences take seconds to arrive, while all the other threads wait."""
    rng = ctx.rng
    for nap in (1.2, 3.3, 6.5) if ctx.tier == "quick" else (2.2, 5.5, 11, 16, 31, 62):
        segs = [s for s in compose(rng, 0, 12) if s[0] != "noise"] + [("ok", valid_sentence(rng, 0))]
        # an even operation is the second byte of a header or the first of the next, the third the rest of the line
        ctx.case("shared", segs=segs, mode=0, policy=1, nthreads=rng.choice((2, 3, 4)), kind="locked",
                 seed=rng.randrange(10**9), here=False, iterate=rng.random() < 0.5, intensity=0.3,
                 naps={str(rng.choice((1, 2, 4, 5))): nap, str(rng.choice((7, 8))): nap / 3})


def iterated(ctx):
    go(ctx, 30, ("locked",), iterate=True)
