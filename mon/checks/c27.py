"""C27 faults of the stream or the error handler reach the caller; the reader stays usable."""

import socket
import threading

from mon import gen, sock, spec
from mon.checks.c08 import config
from mon.core import show
from mon.lib import ERRS, ByteStream, parse, snap, reader

PROPERTY = "C27"
RULE = (
    "Streams that raise (I/O error, timeout, closed file, keyboard interrupt, application error) instead of the "
    "k-th operation, for every k of a stream and for random sets of k, consuming nothing; and error handlers that "
    "raise on chosen calls. Recorded history: every injected exception object reaches the caller of that read "
    "exactly once and unreported, whatever the policy; every sentence not itself interrupted is delivered once, "
    "intact, in order; bad lines are reported as without faults; other threads waiting on the reader go on. "
    "Non-trivial: distinct (operation hit, policy, exception type)."
)
NEED = {"faults": 8000, "delivered": 20000, "handler_faults": 800, "interrupted": 800, "thread_faults": 300,
        "socket_faults": 500, "other_threads": 1000, "reentered": 3000, "configured": 800}
QUICK = 24


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("every", "many", "handlers", "threads", "sockets")]


class DeviceGone(Exception):
    """A driver's own exception type, as serial libraries have."""


def zoo():
    """Every exception class of the language and of the usual transport modules, by name."""
    import asyncio
    import builtins
    import ssl
    import struct
    import zlib
    classes = {n: c for n, c in vars(builtins).items() if isinstance(c, type) and issubclass(c, BaseException)}
    classes.update({"struct.error": struct.error, "zlib.error": zlib.error, "ssl.SSLError": ssl.SSLError,
                    "socket.gaierror": socket.gaierror, "socket.herror": socket.herror,
                    "asyncio.CancelledError": asyncio.CancelledError, "ssl.SSLWantReadError": ssl.SSLWantReadError})
    for n in ("EOFError", "StopIteration", "StopAsyncIteration", "GeneratorExit", "ExceptionGroup", "BaseExceptionGroup"):
        classes.pop(n, None)  # an end of data, or of an iteration, by another name
    return classes


ZOO = zoo()


def fault(name):
    if name in ZOO:
        c = ZOO[name]
        if issubclass(c, UnicodeDecodeError):
            return c("ascii", b"\xff", 0, 1, "driver")
        if issubclass(c, UnicodeEncodeError):
            return c("ascii", "\xff", 0, 1, "driver")
        if issubclass(c, UnicodeTranslateError):
            return c("\xff", 0, 1, "driver")
        return c(104, "driver") if issubclass(c, OSError) else c("driver")
    return {
        "oserror": lambda: OSError(5, "Input/output error"), "timeout": lambda: TimeoutError("timed out"),
        "closed": lambda: ValueError("I/O operation on closed file"), "kbd": lambda: KeyboardInterrupt(),
        "device": lambda: DeviceGone("device disconnected"), "runtime": lambda: RuntimeError("driver"),
        "type": lambda: TypeError("driver"), "intr": lambda: InterruptedError(4, "interrupted"),
        "attr": lambda: AttributeError("port"), "key": lambda: KeyError("x"),
    }[name]()


OWN = {c.__name__: c for c in (*ERRS, EOFError)}  # which a handler may raise as well
KINDS = ("oserror", "timeout", "closed", "kbd", "device", "runtime", "type", "intr", "attr", "key") + tuple(sorted(ZOO))


class Faulty(ByteStream):
    """Raises in place of chosen operations; knows where the stream stood."""

    def __init__(self, data, faults):
        super().__init__(data)
        self.total = len(data)
        self.faults = dict(faults)  # operation number -> kind
        self.n = -1
        self.raised = []
        self.at = []  # positions where a fault struck
        self.oplock = threading.Lock()

    def _op(self, fn, *args):
        with self.oplock:
            self.n += 1
            k = self.faults.get(self.n)
            if k is not None:
                err = fault(k)
                self.raised.append(err)
                self.at.append(self.total - len(self.buf))
                raise err
            return fn(*args)

    def read(self, n):
        return self._op(super().read, n)

    def readline(self):
        return self._op(super().readline)


def good(rng, i):
    """A sentence in which no '$' follows the first byte."""
    k = rng.randrange(3)
    if k == 0:
        return spec.frame("GN", "TXT", ["01", "01", "02", f"n{i}"], None, rng.choice((b"\r\n", b"\n")))
    if k == 1:
        return spec.frame(rng.choice(gen.STDTALK), "ZZ" + str(i), [str(i)] * rng.randint(0, 9))
    return spec.frame("GP", "GLL", [gen.pos_text(rng, "LA"), "N", gen.pos_text(rng, "LN"), "W", "010203.00", "A", f"{i}"])


def stream(rng, n):
    """[(kind, bytes)] of good sentences, bad lines and foreign bytes; '$' only at the start of lines."""
    segs = []
    for i in range(n):
        k = rng.random()
        if k < 0.6:
            segs.append(("ok", good(rng, i)))
        elif k < 0.8:
            raw = good(rng, i)
            star = raw.rfind(b"*")
            ck = b"%02X" % (int(raw[star + 1:star + 3], 16) ^ rng.randint(1, 255))
            segs.append(("bad", raw[:star + 1] + ck + raw[star + 3:]))
        else:
            segs.append(("noise", rng.choice((b"\r\n", b"text\r\n", b"\xb5\x62\x01\x02", b"\x00", b"!AIVDM\r\n"))))
    return segs


def hit(segs, at):
    """Indices of segments inside which (not at whose boundary) a fault struck."""
    out, pos = set(), 0
    for i, (_, b) in enumerate(segs):
        if any(pos < p < pos + len(b) for p in at):
            out.add(i)
        pos += len(b)
    return out


def settle(segs, conf):
    """What each segment is with these flags and definitions."""
    out = []
    for k, b in segs:
        if k in ("ok", "bad"):
            k = "ok" if parse(b, 0, conf["validate"], conf["userdefined"])[0] == "msg" else "bad"
        elif conf["nmeaonly"] and b[:1] == b"$":
            k = "bad"
        out.append((k, b))
    return out


def judge(ctx, segs, at, events, policy, reports, what, conf=None):
    """events: ('msg', raw, m) | ('report', ...) in the order observed."""
    gone = hit(segs, at)
    ctx.count("interrupted", len(gone))
    want = [b for i, (k, b) in enumerate(segs) if k == "ok" and i not in gone]
    lost = [b for i, (k, b) in enumerate(segs) if k == "ok" and i in gone]
    got = [e[1] for e in events]
    ctx.check(got == want, "sentences not interrupted by the fault are not delivered once in order",
              lambda: f"{what}: expected {show(want, 600)} got {show(got, 600)}; interrupted {show(lost)} in {show(segs, 800)}")
    for _, raw, m in events:
        c = conf or {}
        ctx.check(snap(m) == snap(parse(raw, 0, c.get("validate", 1), c.get("userdefined"))[1]), "message differs from direct parsing", lambda: show(raw))
    nbad = sum(1 for i, (k, _) in enumerate(segs) if k == "bad" and i not in gone)
    if policy:
        ctx.check(reports == nbad, "reports differ from bad sentences",
                  lambda: f"{what}: {reports} reports, {nbad} bad sentences in {show(segs, 800)}")
    ctx.count("delivered", len(got))


def case_faults(ctx, segs, faults, policy, handler, iterate, conf=None):
    if conf:
        segs = settle(segs, conf)
        ctx.count("configured")
    data = b"".join(b for _, b in segs)
    st = Faulty(data, faults)
    reports = []
    r = reader(st, quitonerror=policy, errorhandler=reports.append if handler else None, **conf or {})
    it = iter(r)
    events, caught, nrep = [], [], 0
    for _ in range(len(data) + len(faults) + 10):
        n = len(st.raised)
        try:
            raw, m = next(it) if iterate else r.read()
            if raw is None:
                break
            events.append(("msg", raw, m))
        except StopIteration:
            break
        except ERRS as err:
            ctx.check(policy == 2, "parse error raised", lambda: repr(err))
            nrep += 1
        except BaseException as err:  # noqa
            if type(err).__name__ == "Hang":
                raise
            caught.append(err)
            ctx.check(st.raised and err is st.raised[-1] and len(st.raised) == n + 1,
                      "exception other than the stream's own", lambda: f"{err!r} {st.raised!r}")
        else:
            ctx.check(len(st.raised) == n, "fault of the stream swallowed",
                      lambda: f"{st.raised[-1]!r} at {st.at[-1]} of {show(segs, 600)}; policy {policy}")
    else:
        ctx.check(False, "end of stream not reached")
    ctx.check(len(caught) == len(st.raised), "fault of the stream swallowed",
              lambda: f"{st.raised!r} seen {caught!r} in {show(segs, 600)}; policy {policy}")
    for e in reports:
        ctx.check(isinstance(e, ERRS), "fault of the stream reported as a sentence error", lambda: repr(e))
    if policy == 1 and handler:
        nrep = len(reports)
    judge(ctx, segs, st.at, events, 0 if policy == 1 and not handler else policy, nrep,
          f"policy {policy} faults {faults} at {st.at}", conf)
    if len(data) % 4 == 0:
        others(ctx, r, st)
    ctx.count("faults", len(st.raised))
    ctx.seen([type(e).__name__ for e in st.raised][:3], policy, iterate, [a for a in st.at][:3])
    ctx.sample((faults, policy, st.at))


def others(ctx, r, st):
    """After the faults another thread can use the reader."""
    if st is not None:
        st.faults = {}
    done = []
    t = threading.Thread(target=lambda: done.append(r.read()), daemon=True)
    t.start()
    t.join(20)
    if not done:
        ctx.hung = True
    ctx.check(done == [(None, None)], "another thread is blocked after a fault", lambda: repr(done))
    ctx.count("other_threads")


def every(ctx):
    """One fault at each operation of a short stream in turn."""
    rng = ctx.rng
    for _ in range(ctx.n(15)):
        segs = stream(rng, rng.randint(2, 6))
        nops = sum(len(b) if k == "noise" else 3 for k, b in segs) + 1
        for k in range(nops + 1):
            if getattr(ctx, "hung", False):
                return
            ctx.case("faults", segs=segs, faults={k: rng.choice(KINDS)}, policy=rng.randrange(3),
                     handler=rng.random() < 0.7, iterate=rng.random() < 0.4)


def many(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(130)):
        segs = stream(rng, rng.randint(3, 20))
        nops = sum(len(b) if k == "noise" else 3 for k, b in segs)
        faults = {rng.randint(0, nops): rng.choice(KINDS) for _ in range(rng.randint(1, 12))}
        if rng.random() < 0.3:  # the same operation fails again and again
            k = rng.randint(0, nops)
            faults.update({k + i: "timeout" for i in range(rng.randint(2, 6))})
        conf = None
        if rng.random() < 0.5:
            segs = [(k, rng.choice((b"$X", b"$\n", b"$1", b)) if k == "noise" else b) for k, b in segs]
            conf = config(rng, b"".join(b for _, b in segs))
        ctx.case("faults", segs=segs, faults=faults, policy=rng.randrange(3), handler=rng.random() < 0.7, conf=conf,
                 iterate=rng.random() < 0.4)


def case_handlers(ctx, segs, failing, kind, iterate):
    """The caller's error handler raises on the calls listed."""
    data = b"".join(b for _, b in segs)
    calls, thrown = [], []

    def handler(err):
        calls.append(err)
        if len(calls) - 1 in failing:
            thrown.append(err if kind == "same" else OWN[kind]("handler") if kind in OWN else fault(kind))
            raise thrown[-1]
    r = reader(ByteStream(data), quitonerror=1, errorhandler=handler)
    it = iter(r)
    events, caught = [], []
    for _ in range(len(data) + 10):
        try:
            raw, m = next(it) if iterate else r.read()
            if raw is None:
                break
            events.append(("msg", raw, m))
        except StopIteration:
            break
        except BaseException as err:  # noqa
            if type(err).__name__ == "Hang":
                raise
            caught.append(err)
            ctx.check(thrown and err is thrown[-1], "exception other than the handler's own", lambda: repr(err))
    ctx.check(len(caught) == len(thrown), "exception of the handler swallowed", lambda: f"{thrown!r} {caught!r}")
    judge(ctx, segs, [], events, 1, len(calls), f"handler raises on calls {failing}")
    others(ctx, r, None)
    ctx.count("handler_faults", len(thrown))
    ctx.seen("handler", kind, len(thrown), iterate)


def handlers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(110)):
        if getattr(ctx, "hung", False):
            return
        segs = stream(rng, rng.randint(3, 16))
        ctx.case("reenter", segs=segs, n=rng.randint(1, 4), iterate=rng.random() < 0.4)
        ctx.case("handlers", segs=segs, failing=[i for i in range(10) if rng.random() < 0.4], kind=rng.choice(KINDS) if rng.random() < 0.6 else rng.choice(sorted(OWN) + ["same"]),
                 iterate=rng.random() < 0.4)


def case_reenter(ctx, segs, n, iterate):
    """The error handler itself reads from the reader (for instance to skip n sentences)."""
    data = b"".join(b for _, b in segs)
    events, calls, depth = [], [], [0]

    def handler(err):
        calls.append(err)
        if depth[0] < 2:
            depth[0] += 1
            for _ in range(n):
                raw, m = r.read()
                if raw is not None:
                    events.append(("msg", raw, m))
            depth[0] -= 1
    r = reader(ByteStream(data), quitonerror=1, errorhandler=handler)
    it = iter(r)
    for _ in range(len(data) + 10):
        raw, m = next(it, (None, None)) if iterate else r.read()
        if raw is None:
            break
        events.append(("msg", raw, m))
    judge(ctx, segs, [], events, 1, len(calls), f"handler reads {n} itself")
    ctx.count("reentered", len(calls))
    ctx.seen("reenter", n, iterate, len(calls))


def case_threads(ctx, segs, faults, policy, nthreads, failing):
    """Faults while several threads use the reader: nobody is left waiting."""
    data = b"".join(b for _, b in segs)
    st = Faulty(data, faults)
    calls = []

    def handler(err):
        calls.append(err)
        if len(calls) - 1 in failing:
            raise RuntimeError("handler")
    r = reader(st, quitonerror=policy, errorhandler=handler)
    got, caught, nrep = [], [], [0]
    lock = threading.Lock()
    ended = []

    def work(iterate):
        it = iter(r)
        while True:
            try:
                raw, m = next(it, (None, None)) if iterate else r.read()
                if raw is None:
                    ended.append(1)
                    return
                with lock:
                    got.append((raw, m))
            except ERRS:
                with lock:
                    nrep[0] += 1
            except BaseException as err:  # noqa
                with lock:
                    caught.append(err)
    ts = [threading.Thread(target=work, args=((nthreads + i) % 3 == 0,), daemon=True) for i in range(nthreads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(30)
    if len(ended) < nthreads:
        ctx.hung = True
        ctx.check(False, "threads blocked after a fault",
                  lambda: f"{nthreads - len(ended)} of {nthreads}; faults {st.raised!r}")
    gone = hit(segs, st.at)
    want = sorted(b for i, (k, b) in enumerate(segs) if k == "ok" and i not in gone)
    ctx.check(sorted(raw for raw, _ in got) == want, "sentences not interrupted by the fault are not delivered once",
              lambda: f"expected {show(want, 600)} got {show(sorted(x for x, _ in got), 600)}")
    for e in st.raised:
        ctx.check(sum(1 for c in caught if c is e) == 1, "fault of the stream swallowed", lambda: repr(e))
    ctx.count("thread_faults", len(caught))
    ctx.seen("threads", nthreads, policy, len(st.raised))


def threads(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(30)):
        segs = stream(rng, rng.randint(5, 25))
        nops = sum(len(b) if k == "noise" else 3 for k, b in segs)
        faults = {rng.randint(0, nops): rng.choice(KINDS) for _ in range(rng.randint(0, 10))}
        ctx.case("threads", segs=segs, faults=faults, policy=rng.randrange(3), nthreads=rng.randint(2, 6),
                 failing=[i for i in range(10) if rng.random() < 0.3])


sock.FAULTS["kbd"] = lambda: KeyboardInterrupt()
sock.FAULTS["device"] = lambda: DeviceGone("gone")


def case_sockets(ctx, segs, script, bufsize):
    """An interrupt (not an I/O error) strikes in a receive: nothing already received is lost."""
    s = sock.ScriptSocket(script)
    caught, got = 0, []
    r = None
    given = []
    for _ in range(len(script) * 2 + sum(len(b) for _, b in segs) + 10):
        try:
            if r is None:
                r = reader(s, quitonerror=0, bufsize=bufsize)
            raw, m = r.read()
            if raw is None:
                if s.done:
                    break
                continue
            got.append(raw)
        except (KeyboardInterrupt, DeviceGone):
            caught += 1
            if r is not None:
                given.append(len(s.given))
    ctx.check(caught == sum(1 for x in script if x in ("kbd", "device")), "interrupt swallowed", lambda: show(script))
    # everything handed out before an interrupt and not part of the sentence being read survives it
    gone = hit(segs, given)
    want = [b for i, (k, b) in enumerate(segs) if k == "ok" and i not in gone]
    maybe = [b for i, (k, b) in enumerate(segs) if k == "ok" and i in gone]
    ctx.check([b for b in got if b not in maybe] == want, "sentences not interrupted are not delivered once in order",
              lambda: f"expected {show(want, 600)} got {show(got, 600)}; script {show(script, 800)}")
    ctx.check(len(set(got)) == len(got), "sentence delivered twice", lambda: show(got))
    ctx.count("socket_faults", caught)
    ctx.seen("socket", bufsize, len(script))
    s.close()


def sockets(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(60)):
        segs = [("ok", good(rng, i)) for i in range(rng.randint(2, 10))]
        data = b"".join(b for _, b in segs)
        script = []
        for s in sock.segment(rng, data):
            script.append(s)
            if rng.random() < 0.1:
                script.append(rng.choice(("kbd", "device")))
        ctx.case("sockets", segs=segs, script=[script[0]] + script[1:], bufsize=rng.choice((1, 16, 4096)))
