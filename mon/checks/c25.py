"""C25 prompt delivery and exact consumption: nothing beyond the sentence is needed or taken."""

import os
import socket
import threading
import time

from mon import gen, sock
from mon.checks.c08 import compose, config
from mon.core import show
from mon.lib import ERRS, parse, snap, reader

PROPERTY = "C25"
RULE = (
    "Streams whose bytes arrive item by item: at each step everything up to the end of one sentence (preceded "
    "by foreign bytes and bad lines) has arrived and nothing more. A read that asks the stream or socket for "
    "more before that sentence is delivered is aborted by the monitor; afterwards the stream position must be "
    "exactly behind the line feed, and bytes taken from the stream there by somebody else must be the following "
    "ones. All operations on the stream are recorded: only reads are allowed. In-memory, raw and buffered pipes, "
    "pseudo-terminals, sockets (scripted and real, plain and chunked). Non-trivial: distinct (kinds of bytes "
    "before the sentence, stream kind, policy)."
)
NEED = {"prompt": 20000, "positions": 15000, "shared_reads": 2000, "socket_steps": 4000, "chunked_steps": 800,
        "live_steps": 300, "raised": 500, "ends": 1000, "configured": 500}
QUICK = 20


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("arriving", "arriving2", "shared", "sockets", "chunked", "live")]


class Starved(BaseException):
    """The reader asked for bytes that have not arrived although it could deliver."""


class Arriving:
    """Stream of which only the first `front` bytes have arrived; everything else is forbidden."""

    def __init__(self, data):
        object.__setattr__(self, "s", dict(data=data, pos=0, front=0, ended=False, ops=[]))

    def __getattribute__(self, name):
        # looking at the stream's other methods is harmless, using them is recorded
        s = object.__getattribute__(self, "s")
        if name == "monitor":
            return s
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        self.monitor["ops"].append("set " + name)

    def seek(self, off, whence=0):
        s = self.monitor
        s["ops"].append("seek")
        s["pos"] = max(0, min(s["front"], off + (0, s["pos"], s["front"])[whence]))
        return s["pos"]

    def tell(self):
        return self.monitor["pos"]

    closed = False
    mode = "rb+"

    def seekable(self):
        return True

    def readable(self):
        return True

    def read(self, n=-1):
        s = self.monitor
        if s["ended"]:
            return b""
        if n is None or n < 0 or s["pos"] + n > s["front"]:
            raise Starved(f"read({n}) at {s['pos']}, {s['front'] - s['pos']} bytes there")
        d = s["data"][s["pos"]:s["pos"] + n]
        s["pos"] += len(d)
        return d

    def readline(self, *args):
        s = self.monitor
        if s["ended"]:
            return b""
        if args and args[0] is not None and args[0] >= 0:
            i = s["data"].find(b"\n", s["pos"], s["pos"] + args[0])
            end = s["pos"] + args[0] if i < 0 else i + 1
        else:
            end = s["data"].find(b"\n", s["pos"]) + 1 or len(s["data"]) + 1
        if end > s["front"]:
            raise Starved(f"readline at {s['pos']}, {s['front'] - s['pos']} bytes there")
        d = s["data"][s["pos"]:end]
        s["pos"] = end
        return d


def _recorded(name):
    def use(self, *args, **kw):
        self.monitor["ops"].append(name)
    return use


for _n in ("write", "writelines", "flush", "close", "truncate", "detach", "reset_input_buffer", "reset_output_buffer",
           "send", "sendall", "settimeout", "setblocking"):
    setattr(Arriving, _n, _recorded(_n))


def steps(segs, policy, mode, conf=None):
    """[(bytes that must have arrived, expected outcome, kinds before)]: one per read() call."""
    flags = ((conf or {}).get("validate", 1), (conf or {}).get("userdefined"))
    out, end, kinds = [], 0, []
    for k, b in segs:
        end += len(b)
        kinds.append(k)
        if k == "bad" or k == "ok" and conf:
            o = parse(b, mode, *flags)[0]
            if o == "msg":
                if not conf:
                    raise AssertionError(b)
                out.append((end, ("msg", b), tuple(kinds)))
                kinds = []
            elif o == "none":
                out.append((end, ("none", b), tuple(kinds)))
                kinds = []
            elif policy == 2:
                out.append((end, ("raise", None), tuple(kinds)))
                kinds = []
        elif k == "ok":
            out.append((end, ("msg", b), tuple(kinds)))
            kinds = []
    return out


def get(r, it, iterate):
    try:
        raw, m = next(it) if iterate else r.read()
    except ERRS as err:
        return ("raise", None), err
    except StopIteration:
        return ("end", None), None
    return ("end" if raw is None else "none" if m is None else "msg", raw), m


def verdict(ctx, want, got, m, mode, what, conf=None):
    ctx.check(got == want, "sentence not delivered when complete",
              lambda: f"{what}: expected {show(want)} got {show(got)}")
    if want[0] == "msg":
        flags = ((conf or {}).get("validate", 1), (conf or {}).get("userdefined"))
        ctx.check(snap(m) == snap(parse(want[1], mode, *flags)[1]), "message differs from direct parsing", lambda: show(want))
    ctx.count("prompt")
    if want[0] == "raise":
        ctx.count("raised")


def case_arriving(ctx, segs, mode, policy, iterate, foreign, conf=None):
    """foreign: numbers of bytes somebody else takes from the stream between two reads (0: none)."""
    data = b""
    parts = []
    todo = iter(foreign)
    for end, want, kinds in steps(segs, policy, mode, conf):
        n = next(todo, 0)
        parts.append((end, want, kinds, n))
    # bytes for the other consumer are put in behind each delivered item
    plain = b"".join(b for _, b in segs)
    ends, pos = [], 0
    for end, want, kinds, n in parts:
        extra = bytes((7 * i + n) % 255 for i in range(n)).replace(b"$", b"#")
        data += plain[pos:end] + extra
        ends.append((len(data) - len(extra), want, kinds, extra))
        pos = end
    st = Arriving(data + b"\xff" * 50)
    r = reader(st, msgmode=mode, quitonerror=policy, errorhandler=lambda e: None, **conf or {})
    if conf:
        ctx.count("configured")
    mon = st.monitor
    it = iter(r)
    for front, want, kinds, extra in ends:
        mon["front"] = front
        try:
            got, m = get(r, it, iterate)
        except Starved as err:
            ctx.check(False, "reader needs bytes beyond a complete sentence",
                      lambda: f"{err} while {show(want)} had arrived completely ({kinds}); policy {policy}")
        verdict(ctx, want, got, m, mode, f"policy {policy} {kinds}", conf)
        ctx.check(mon["pos"] == front, "stream left at the wrong position",
                  lambda: f"at {mon['pos']} instead of {front} after {show(want)}")
        ctx.count("positions")
        if extra:
            mon["front"] = front + len(extra)
            ctx.check(st.read(len(extra)) == extra, "bytes of another consumer lost")
            ctx.count("shared_reads")
        ctx.check(r.datastream is st, "datastream is not the stream", lambda: repr(r.datastream))
        ctx.seen("mem", kinds, policy, iterate, bool(extra))
    mon["ended"] = True
    got, m = get(r, it, iterate)
    ctx.check(got == ("end", None), "end of stream not reported", lambda: show(got))
    ctx.count("ends")
    ctx.check(not mon["ops"], "stream used for anything but reading", lambda: show(mon["ops"]))
    ctx.sample([show(p[1], 60) for p in parts[:2]])


def settings(rng, segs, policy):
    """Other flags and definitions now and then (with nmeaonly foreign headers would raise under policy 2)."""
    if rng.random() < 0.6:
        return None
    conf = config(rng, b"".join(b for _, b in segs))
    return dict(conf, nmeaonly=conf["nmeaonly"] and policy != 2)


def fit(segs):
    """Foreign bytes that end in '$' only where the next bytes have arrived with them."""
    out = []
    for k, b in segs:
        if out and out[-1][1][-1:] == b"$" and out[-1][0] == "noise" and k == "noise" and b[:1] in gen.HDRBYTES:
            b = b" " + b
        out.append((k, b))
    return out


def arriving(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(170)):
        mode = rng.choice((0, 0, 1, 2))
        segs = fit(compose(rng, mode, rng.randint(2, 16)))
        policy = rng.randrange(3)
        ctx.case("arriving", segs=segs, mode=mode, policy=policy, iterate=rng.random() < 0.5, foreign=[],
                 conf=settings(rng, segs, policy))


arriving2 = arriving


def shared(ctx):
    """Another consumer takes its own bytes from the same stream between reads."""
    rng = ctx.rng
    for _ in range(ctx.n(90)):
        mode = rng.choice((0, 0, 1, 2))
        segs = fit(compose(rng, mode, rng.randint(2, 12)))
        ctx.case("arriving", segs=segs, mode=mode, policy=rng.randrange(3), iterate=rng.random() < 0.5,
                 foreign=[rng.choice((0, 1, 2, 20, 300)) for _ in segs])


class LiveSocket(sock.ScriptSocket):
    """Asking for more than has arrived is recorded as starvation."""

    def recv(self, bufsize, flags=0):
        if not self.script:
            raise Starved("recv() with nothing there")
        return super().recv(bufsize, flags)


def case_sockets(ctx, segs, mode, policy, bufsize, cut, chunks, conf=None):
    plain = b"".join(b for _, b in segs)
    plan, pos, carry = [], 0, b""
    import random
    rng = random.Random(cut)
    for end, want, kinds in steps(segs, policy, mode, conf):
        part = plain[pos:end]
        if chunks:
            k = rng.randint(1, 3)
            pieces, rest = [], part
            for _ in range(k - 1):
                n = rng.randint(0, len(rest))
                pieces.append(rest[:n])
                rest = rest[n:]
            pieces.append(rest)
            part = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in pieces if p)
        if chunks:  # the line end behind the last chunk may come later
            late = rng.choice((0, 0, 1, 2))
            part, carry = carry + part[:len(part) - late], part[len(part) - late:]
        plan.append((sock.segment(rng, part), want, kinds))
        pos = end
    if not plan:
        return
    s = LiveSocket(plan[0][0])
    r = reader(s, msgmode=mode, quitonerror=policy, errorhandler=lambda e: None, bufsize=bufsize,
               encoding=1 if chunks else 0, **conf or {})
    if conf:
        ctx.count("configured")
    try:
        for n, (segments, want, kinds) in enumerate(plan):
            if n:
                s.script = list(reversed(segments)) + s.script
            try:
                got, m = get(r, None, False)
            except Starved as err:
                ctx.check(False, "reader waits for more than a complete sentence",
                          lambda: f"{err}; {show(want)} had arrived completely ({kinds}); policy {policy} bufsize "
                                  f"{bufsize} chunks {chunks}")
            verdict(ctx, want, got, m, mode, f"socket policy {policy} bufsize {bufsize}", conf)
            ctx.count("chunked_steps" if chunks else "socket_steps")
            ctx.seen("sock", kinds, policy, bufsize > 64, chunks)
    finally:
        s.close()
    ctx.check(not s.sent, "reader wrote to the socket", lambda: show(s.sent))


def sockets(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150)):
        mode = rng.choice((0, 0, 1, 2))
        segs = fit(compose(rng, mode, rng.randint(2, 10)))
        if sum(len(b) for _, b in segs) > 15000:
            continue
        policy = rng.randrange(3)
        ctx.case("sockets", segs=segs, mode=mode, policy=policy, conf=settings(rng, segs, policy),
                 bufsize=rng.choice((1, 7, 64, 4096, 65536)), cut=rng.randrange(10**9), chunks=False)


def chunked(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(70)):
        segs = fit(compose(rng, 0, rng.randint(2, 8)))
        if sum(len(b) for _, b in segs) > 15000:
            continue
        policy = rng.randrange(3)
        ctx.case("sockets", segs=segs, mode=0, policy=policy, conf=settings(rng, segs, policy), bufsize=rng.choice((16, 4096, 65536)),
                 cut=rng.randrange(10**9), chunks=True)


def case_live(ctx, segs, kind, policy):
    """Real descriptors: the next item is written only after the previous one was delivered."""
    plain = b"".join(b for _, b in segs)
    plan, pos = [], 0
    for end, want, kinds in steps(segs, policy, 0):
        plan.append((plain[pos:end], want))
        pos = end
    closers = []
    if kind == "socket":
        a, b = socket.socketpair()
        a.settimeout(20)
        src, put = a, b.sendall
        closers += [a, b]
        hangup = b.close
    else:
        if kind == "pty":
            rd, wr = os.openpty()
            import tty
            tty.setraw(wr)
            tty.setraw(rd)
        else:
            rd, wr = os.pipe()
        src = os.fdopen(rd, "rb", buffering=0 if kind == "rawpipe" else -1)
        closers.append(src)
        put = lambda d: os.write(wr, d)  # noqa: E731
        closed = []

        def hangup():
            if not closed:
                closed.append(1)
                os.close(wr)
    late = threading.Timer(20, hangup)
    late.daemon = True
    late.start()
    try:
        r = None
        for data, want in plan:
            if kind == "pty" and len(data) > 3000:
                return
            put(data)
            if r is None:
                r = reader(src, quitonerror=policy, errorhandler=lambda e: None)
            t = time.monotonic()
            try:
                got, m = get(r, None, False)
            except OSError as err:
                got, m = ("oserror", str(err)), None
            waited = time.monotonic() - t
            ctx.hung |= got != want and waited > 5
            if got == want and waited > 15:  # only the hangup brought it (more than once: no hiccup of the machine)
                ctx.slow = getattr(ctx, "slow", 0) + 1
                ctx.hung |= ctx.slow > 2
                ctx.check(ctx.slow <= 2, "sentence not delivered until the stream ends", lambda: f"{kind}: {waited:.1f} s")
                return
            ctx.check(got == want, "sentence not delivered until more arrives",
                      lambda: f"{kind}: expected {show(want)} got {show(got)} after {time.monotonic() - t:.1f} s")
            ctx.count("live_steps")
    finally:
        late.cancel()
        hangup()
        for c in closers:
            c.close()
    ctx.seen("live", kind, policy, len(plan))


def live(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(25)):
        if getattr(ctx, "hung", False):
            break
        segs = fit(compose(rng, 0, rng.randint(2, 8)))
        if sum(len(b) for _, b in segs) > 15000:
            continue
        ctx.case("live", segs=segs, kind=rng.choice(("socket", "pipe", "rawpipe", "pty")), policy=rng.randrange(3))
