"""C09 error policy: each bad sentence reported once as configured, others unaffected."""

import enum
import functools
import io
import logging
import random

from mon import gen, spec
from mon.checks.c08 import valid_sentence
from mon.checks.c11 import pack, size_line
from mon.core import show
from mon.lib import ERRS, ByteStream, errname, parse, reader
from mon.sock import ScriptSocket, segment

PROPERTY = "C09"
RULE = (
    "Streams of valid sentences, foreign bytes and bad lines whose outcome is known by construction "
    "(checksum, type, unknown id, undecodable, malformed, cut off by end-of-stream) are read under "
    "ignore, log (with and without handler) and raise, nmeaonly on and off, all validation flags; the "
    "recorded event log (deliveries, handler calls, log records, exceptions) must equal the composed "
    "one event by event, also over thousands of bad sentences in one stream. Non-trivial: distinct (kinds of bad lines, policy, handler, flags)."
)
NEED = {"reports": 10000, "handler_calls": 2000, "log_records": 1500, "raised": 2500, "ignored": 2000,
        "delivered": 10000, "nonnmea_reports": 1000, "eof_reports": 200, "type_errors": 500, "unknown_errors": 500, "grown": 1000, "mixed": 800, "mixed_reports": 2000, "long": 6,
        "handler: fn": 400, "handler: method": 400, "handler: object": 400, "handler: partial": 400}
QUICK = 16


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k) for n in ("streams", "streams2", "streams3", "streams4", "cuts", "runs", "grown", "long", "mixed", "mixed2")]


def bad_type(rng, mode):
    """A recognised sentence one of whose fields cannot be converted."""
    while True:
        m, t, msgid, fields, _ = gen.sentence(rng, bad=0.5, modes=(mode,), unknown=0.0)
        try:
            spec.decode(m, t, msgid, fields)
        except spec.TypeErr:
            return spec.frame(t, msgid, fields)


def bad(rng, mode):
    """-> (tag, line)"""
    tag = rng.choice(("cksum", "cksum", "type", "type", "unknown", "nonutf8", "malformed", "short", "nocomma"))
    raw = valid_sentence(rng, mode)
    star = raw.rfind(b"*")
    if tag == "cksum":
        if rng.random() < 0.15:  # something between the checksum and the line end
            return tag, raw[:star + 3] + rng.choice((b" ", b"\t", b"0", b",")) + b"\r\n"
        ck = b"%02X" % (int(raw[star + 1:star + 3], 16) ^ rng.randint(1, 255))
        return tag, raw[:star + 1] + ck + raw[star + 3:]
    if tag == "type":
        return tag, bad_type(rng, mode)
    if tag == "unknown":
        return tag, spec.frame(rng.choice(gen.STDTALK), gen.unknown_id(rng), ["1", gen.text(rng, "plain")])
    if tag == "nonutf8":
        body = raw[1:star][:2] + b"\xff\xfe" + raw[1:star][2:]
        return tag, b"$" + body + b"*%02X\r\n" % spec.xor(body)
    if tag == "malformed":
        return tag, raw[: rng.randint(3, star)] + rng.choice((b"\r\n", b"\n", b"*\r\n", b"*1\r\n"))
    if tag == "short":
        return tag, raw[:rng.randint(2, 6)] + b"\r\n"
    return tag, raw[:1] + raw[1:star].replace(b",", b";") + raw[star:]


def compose(rng, mode, n, pbad=0.35):
    segs = []
    for _ in range(n):
        k = rng.random()
        if k < pbad:
            s = bad(rng, mode)
        elif k < 0.75:
            s = ("ok", valid_sentence(rng, mode))
        else:
            x = gen.noise(rng)
            if segs and segs[-1][1][-1:] == b"$" and x[:1] in gen.HDRBYTES:
                x = b"1" + x
            s = ("noise", x)
        segs.append(s)
    return segs


class Recorder(logging.Handler):
    """Collects every log record of the package."""

    def __init__(self, events):
        super().__init__(0)
        self.events = events

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            msg = record.msg
            self.events.append(("log", errname(msg) if isinstance(msg, Exception) else None, str(record.getMessage())))


def expected(ctx, segs, mode, validate, nmeaonly, user=None):
    """Events in order: ('msg', raw) | ('none', raw) | ('report', error type name or None = any documented)."""
    out = []
    for tag, b in segs:
        if tag == "noise":
            if nmeaonly:
                out += [("report", None)] * b.count(b"$")
                ctx.count("nonnmea_reports", b.count(b"$"))
            continue
        if tag == "cut":
            if len(b) > 2:
                out.append(("report", "NMEAStreamError"))
                ctx.count("eof_reports")
            continue
        k, v = parse(b, mode, validate, user)
        if tag == "ok":
            ctx.check(k == "msg" or validate & 2 or user, "valid sentence rejected", lambda: f"{b!r} {v!r}")
        elif tag == "cksum" and validate & 1:
            ctx.check(k == "err" and errname(v) == "NMEAParseError", "bad checksum not a parse error",
                      lambda: f"{b!r} {v!r}")
        elif tag == "type" and not validate & 2:
            ctx.check(k == "err" and errname(v) == "NMEATypeError", "bad field not a type error",
                      lambda: f"{b!r} {v!r}")
            ctx.count("type_errors")
        elif tag == "unknown" and not user:
            if validate & 2:
                ctx.check(k == "err" and errname(v) == "NMEAParseError", "unknown id not a parse error",
                          lambda: f"{b!r} {v!r}")
                ctx.count("unknown_errors")
            else:
                ctx.check(k == "msg", "unknown id not NOMINAL", lambda: f"{b!r} {v!r}")
        if k == "err":
            out.append(("report", errname(v)))
        else:
            out.append((k, b))
    return out


def judge(ctx, want, got, policy, handler, segs):
    channel = {0: None, 1: "call" if handler else "log", 2: "raise"}[policy]
    exp = [e for e in want if e[0] != "report" or channel]
    ok = len(exp) == len(got)
    if ok:
        for e, g in zip(exp, got):
            if e[0] == "report":
                if g[0] != channel or not (g[1] is None and channel == "log" or g[1] == e[1]
                                           or (e[1] is None and g[1] in [x.__name__ for x in ERRS])):
                    ok = False
                elif not g[2]:
                    ok = False
            elif e != g:
                ok = False
    if not ok:
        i = next((i for i, (e, g) in enumerate(zip(exp, got)) if e[:1] != g[:1] and not (e[0] == "report" and
                  g[0] == channel) or e[0] != "report" and e != g), min(len(exp), len(got)))
        ctx.check(False, "events differ from those configured",
                  lambda: f"policy {policy} handler {handler}: {len(exp)} expected, {len(got)} observed; at {i}: "
                          f"expected {show(exp[i:i + 3])} observed {show(got[i:i + 3])}; stream {show(segs, 1200)}")


class Policy(enum.IntEnum):
    IGNORE = 0
    LOG = 1
    RAISE = 2


def written(policy, number):
    """The policy as the integer it is, or as something that equals it."""
    return Policy(policy) if number == "enum" else bool(policy) if number == "bool" and policy < 2 else policy


def case_policy(ctx, segs, mode, validate, policy, handler, nmeaonly, iterate, eofs=(), number="int"):
    """eofs: indices of segments before which the stream (so far) has ended and then grows."""
    cuts = [0, *eofs, len(segs)]
    parts = [b"".join(b for _, b in segs[i:j]) for i, j in zip(cuts, cuts[1:])]
    if len(parts) > 1:
        ctx.count("grown")
    want = expected(ctx, segs, mode, validate, nmeaonly)
    got = []
    rec = Recorder(got)
    log = logging.getLogger("pynmeagps")
    log.addHandler(rec)
    try:
        calls = None
        if handler == "fn":
            def calls(err):
                got.append(("call", errname(err) if isinstance(err, Exception) else None, str(err)))
        elif handler == "method":
            class H:
                def on(self, err):
                    got.append(("call", errname(err) if isinstance(err, Exception) else None, str(err)))
            calls = H().on
        elif handler == "object":  # a list that can be called: its truth value is false
            class L(list):
                def __call__(self, err):
                    got.append(("call", errname(err) if isinstance(err, Exception) else None, str(err)))
            calls = L()
        elif handler == "partial":
            calls = functools.partial(lambda bag, err: bag.append(("call", errname(err), str(err))), got)
        st = ByteStream(parts[0]) if iterate or eofs else io.BytesIO(parts[0])
        r = reader(st, msgmode=mode, validate=validate,
                       quitonerror=written(policy, number), nmeaonly=nmeaonly, errorhandler=calls)
        it = iter(r)
        for n, part in enumerate(parts):
            if n:
                st.feed(part)
            ended = False
            for _ in range(len(part) + 10):
                try:
                    if iterate:
                        raw, m = next(it)
                    else:
                        raw, m = r.read()
                        if raw is None and m is None:
                            ended = True
                            break
                    got.append(("none" if m is None else "msg", raw))
                except StopIteration:
                    ended = True
                    break
                except ERRS as err:
                    got.append(("raise", errname(err), str(err)))
            ctx.check(ended, "end of stream not reached", lambda: show(segs))
    finally:
        log.removeHandler(rec)
    judge(ctx, want, got, policy, handler, segs)
    n = sum(1 for e in want if e[0] == "report")
    ctx.count("reports", n)
    ctx.count({0: "ignored", 1: "handler_calls" if handler else "log_records", 2: "raised"}[policy], n)
    ctx.count("delivered", len(want) - n)
    if policy == 1 and handler:
        ctx.count("handler: " + handler, n)
    ctx.seen(tuple(t for t, _ in segs), policy, handler, nmeaonly, validate)
    ctx.sample((policy, got[:4]))


def transport(rng, data):
    """The same bytes in one of the ways they can arrive."""
    k = rng.randrange(6)
    if k == 0:
        return "BytesIO", io.BytesIO(data), {}
    if k == 1:
        return "stream", ByteStream(data), {}
    if k == 2:
        return "buffered", io.BufferedReader(io.BytesIO(data), rng.choice((1, 7, 64, 8192))), {}
    bufsize = rng.choice((1, 2, 16, 100, 4096, 65536))
    if k == 3:
        return "socket", ScriptSocket(segment(rng, data)), {"bufsize": bufsize}
    enc = rng.choice((0, 2, 4, 8))
    out, i = b"", 0
    while i < len(data):
        n = rng.choice((1, 3, rng.randint(1, 100), rng.randint(1, 2000)))
        chunk = pack(data[i:i + n], 1 | enc)
        out += size_line(len(chunk), rng.randrange(6)) + chunk + b"\r\n"
        i += n
    if rng.random() < 0.5:
        out += b"0\r\n\r\n"
    return f"chunked {enc}", ScriptSocket(segment(rng, out)), {"bufsize": bufsize, "encoding": 1 | enc}


def case_mixed(ctx, streams, seed):
    """Several readers at once, each with a transport, mode, flags, policy, handler and definitions of its own."""
    rng = random.Random(seed)
    now = [None]

    class Rec(logging.Handler):
        def emit(self, record):
            if record.levelno >= logging.ERROR:
                now[0].append(("log", errname(record.msg) if isinstance(record.msg, Exception) else None,
                               str(record.getMessage())))

    rec = Rec(0)
    log = logging.getLogger("pynmeagps")
    log.addHandler(rec)
    arms_, socks = [], []
    try:
        for st in streams:
            got, want = [], expected(ctx, st["segs"], st["mode"], st["validate"], st["nmeaonly"], st["user"])
            kind, src, kw = transport(rng, b"".join(b for _, b in st["segs"]))
            if isinstance(src, ScriptSocket):
                socks.append(src)
            calls = (lambda err, bag=got: bag.append(("call", errname(err), str(err)))) if st["handler"] else None
            now[0] = got
            r = reader(src, msgmode=st["mode"], validate=st["validate"], quitonerror=st["policy"],
                       nmeaonly=st["nmeaonly"], errorhandler=calls, userdefined=st["user"], **kw)
            arms_.append((st, kind, r, iter(r), want, got))
        live, steps = list(arms_), sum(len(st["segs"]) * 40 + 200 for st in streams)
        while live and steps:
            steps -= 1
            arm = rng.choice(live)
            now[0] = got = arm[5]
            try:
                if rng.random() < 0.5:
                    raw, m = next(arm[3])
                else:
                    raw, m = arm[2].read()
                if raw is None and m is None:
                    live.remove(arm)
                else:
                    got.append(("none" if m is None else "msg", raw))
            except StopIteration:
                live.remove(arm)
            except ERRS as err:
                got.append(("raise", errname(err), str(err)))
        ctx.check(not live, "end of stream not reached", lambda: show([a[1] for a in live]))
    finally:
        log.removeHandler(rec)
        for x in socks:
            x.close()
    for st, kind, _, _, want, got in arms_:
        judge(ctx, want, got, st["policy"], st["handler"], st["segs"])
        ctx.count("mixed")
        ctx.count("mixed: " + kind)
        ctx.count("mixed_reports", sum(1 for e in want if e[0] == "report"))
        ctx.seen("mixed", kind, st["mode"], st["validate"], st["policy"], st["handler"], st["nmeaonly"], bool(st["user"]))


def mixed(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(260)):
        streams_ = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            mode = rng.choice((0, 0, 1, 2))
            segs = compose(rng, mode, rng.randint(1, 20))
            user = None
            ids = [b[3:].split(b",")[0].decode() for t, b in segs if t == "unknown"]
            if ids and rng.random() < 0.6:
                user = {i: {"a": rng.choice(("IN", "ST", "DE", "HX")), "b": "ST", "c": "IN"}
                        for i in ids if rng.random() < 0.8} or None
            if rng.random() < 0.3:
                last = valid_sentence(rng, mode)
                segs.append(("cut", last[:rng.randint(3, len(last) - 1)]))
            elif segs[-1][1][-1:] == b"$":
                segs.append(("noise", b"\x01"))
            a = arms(rng)
            streams_.append(dict(segs=segs, mode=mode, validate=rng.choice((0, 1, 1, 2, 3)), policy=a["policy"],
                                 handler=rng.choice((None, "fn")), nmeaonly=a["nmeaonly"], user=user))
        ctx.case("mixed", streams=streams_, seed=rng.randrange(2**32))


def arms(rng):
    policy = rng.randrange(3)
    return dict(policy=policy, handler=rng.choice((None, None, "fn", "method", "object", "partial")), nmeaonly=rng.random() < 0.4,
                iterate=rng.random() < 0.5, number=rng.choice(("int", "int", "int", "enum", "bool")))


def streams(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(300)):
        mode = rng.choice((0, 0, 1, 2))
        segs = compose(rng, mode, rng.randint(1, 16))
        if segs[-1][1][-1:] == b"$":
            segs.append(("noise", b"\x01"))
        ctx.case("policy", segs=segs, mode=mode, validate=rng.choice((0, 1, 1, 1, 2, 3)), **arms(rng))


streams2 = streams3 = streams4 = streams

mixed2 = mixed


def cuts(ctx):
    """The stream ends inside a sentence."""
    rng = ctx.rng
    for _ in range(ctx.n(15)):
        mode = rng.choice((0, 0, 1, 2))
        segs = compose(rng, mode, rng.randint(0, 3))
        last = valid_sentence(rng, mode)
        for cut in (range(1, len(last)) if len(last) < 120 else rng.sample(range(1, len(last)), 40)):
            a = arms(rng)
            if cut == 1 and a["nmeaonly"]:
                continue
            ctx.case("policy", segs=segs + [("cut", last[:cut])], mode=mode, validate=1, **a)


def grown(ctx):
    """The stream ends (possibly inside a sentence), is read to its end, then grows, repeatedly."""
    rng = ctx.rng
    for _ in range(ctx.n(160)):
        mode = rng.choice((0, 0, 1, 2))
        a = arms(rng)
        segs, eofs = [], []
        for _ in range(rng.randint(2, 5)):
            part = compose(rng, mode, rng.randint(0, 4))
            if rng.random() < 0.4:
                last = valid_sentence(rng, mode)
                part.append(("cut", last[:rng.randint(3, len(last) - 1)]))
            if part and part[-1][0] != "cut" and part[-1][1][-1:] == b"$":
                part.append(("noise", b"\n"))
            segs += part
            eofs.append(len(segs))
        if not segs:
            continue
        ctx.case("policy", segs=segs, mode=mode, validate=rng.choice((0, 1, 1, 3)), eofs=eofs[:-1], **a)


def long(ctx):
    """Thousands of bad sentences in one stream, many of them alike: each is reported."""
    rng = ctx.rng
    for policy in (0, 1, 1, 2, 2, 1):
        mode = rng.choice((0, 0, 1, 2))
        pool = [bad(rng, mode) for _ in range(rng.choice((1, 3, 40)))]
        good = [("ok", valid_sentence(rng, mode)) for _ in range(3)]
        segs = [rng.choice(pool) if rng.random() < 0.97 else rng.choice(good) for _ in range(ctx.n(2600))]
        ctx.case("policy", segs=segs, mode=mode, validate=1, **{**arms(rng), "policy": policy})
        ctx.count("long")


def runs(ctx):
    """Long runs of nothing but bad lines; a single bad line in each position."""
    rng = ctx.rng
    for _ in range(ctx.n(12)):
        mode = rng.choice((0, 0, 1, 2))
        segs = [bad(rng, mode) for _ in range(rng.choice((30, 100, 300)))] + [("ok", valid_sentence(rng, mode))]
        for policy in (0, 1, 2):
            ctx.case("policy", segs=segs, mode=mode, validate=rng.choice((1, 3)), **{**arms(rng), "policy": policy})
        n = rng.randint(1, 8)
        good = [("ok", valid_sentence(rng, mode)) for _ in range(n)]
        for i in range(n + 1):
            ctx.case("policy", segs=good[:i] + [bad(rng, mode)] + good[i:], mode=mode, validate=1, **arms(rng))
