"""C03 parsing work, memory and message size are bounded by the sentence length."""

import socket
import sys
import time
import tracemalloc

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.core import Violation
from mon.lib import ERRS, NMEAReader, attrs, parse, stream_of

PROPERTY = "C03"
RULE = (
    "Sentences of every layout with adversarial counts and numbers (0, negative, up to 10**4000, "
    "zero-padded, Unicode digits), user definitions with (nested) groups, and sentences doubled in "
    "length. Monitors: executed-line counter (sys.settrace, aborts the run at the bound), "
    "attribute counter, tracemalloc peak, CPU time ratio under doubling, CPU time of sentences with runs of "
    "100000 equal characters or short units anywhere, CPU time of readers of streams and sockets (every buffer size, chunked or "
    "not) flooded with rubbish, endless lines or sentences, four times as much against once. Non-trivial: distinct "
    "(layout, count text, number of fields)."
)
NEED = {"line_events": 1000000, "messages": 2000, "counted_layouts": 5, "peak_measured": 150,
        "growth_points": 28, "runs": 400, "floods": 30, "floods of a socket": 20}
QUICK = 3
BASE, PERBYTE, PERFIELD = 12000, 20, 600  # line events allowed; ordinary parsing needs under half


def bound(raw):
    return BASE + PERBYTE * len(raw) + PERFIELD * raw.count(b",")


MEMBASE, MEMBYTE = 300000, 2000

COUNTS = ["0", "1", "-1", "7", "99", "100", "255", "1000", "9999", "65535", "99999", "1000000", "00099999999",
          "2147483647", "4294967296", "9" * 18, "9" * 30, "1" * 300, "+999999", " 99999", "1_000_000", "99999 ",
          "٩٩٩٩٩٩", "９９９９９９", "1e9", "1e308", "9999999.0", "inf"]


class Abort(BaseException):
    pass


def metered(fn, limit):
    """Run fn counting executed lines; returns (result, lines, aborted)."""
    n = 0

    def local(frame, event, arg):
        nonlocal n
        n += 1
        if n > limit:
            raise Abort()
        return local

    old = sys.gettrace()
    sys.settrace(local)
    try:
        return fn(), n, False
    except Abort:
        return None, n, True
    finally:
        sys.settrace(old)


WARM = []


def warm():
    """First use of the date/time formats compiles them: not work done per sentence."""
    if not WARM:
        WARM.append(1)
        parse(spec.frame("GN", "ZDA", ["010203.00", "01", "01", "2020", "00", "00"]))
        for typ in ("DT", "DM", "DTL", "TM"):
            parse(spec.frame("GN", "QQ1", ["010203.00" if typ == "TM" else "010203"]), 0, 1, {"QQ1": {"a": typ}})


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return ["growth#0", "growth#1", "runs#0", "runs#1"] + [f"{n}#{i}" for i in range(k)
                                       for n in ("counts", "layouts", "userdefs", "memory", "reader", "floods", "sockets")]


def judge(ctx, k, v, nf, raw):
    if k == "msg":
        ctx.count("messages")
        a = attrs(v)
        ctx.check(len(a) <= nf, "more attributes than fields",
                  lambda: f"{len(a)} attributes from {nf} fields: {raw[:200]!r}")
        ctx.check(len(v.payload) <= nf, "payload larger than sentence", lambda: f"{raw[:200]!r}")


def case_one(ctx, raw, mode, validate=1, user=None):
    warm()
    if user is not None:
        user = user_of(user)
    limit = bound(raw)
    res, n, aborted = metered(lambda: parse(raw, mode, validate, user), limit)
    ctx.count("line_events", n)
    ctx.check(not aborted, "work not bounded by sentence length",
              lambda: f"over {limit} line events for {len(raw)} bytes: {raw[:200]!r}")
    judge(ctx, res[0], res[1], raw.count(b","), raw)


def countpos(mode, key):
    """Index of the count field(s) of a layout."""
    d = spec.DEFS[mode][key]
    names = {t["n"] for _, t in d if isinstance(t, dict) and isinstance(t["n"], str) and t["n"] != "None"}
    return [i for i, (k, t) in enumerate(d) if k in names]


GROUPED = [(m, k) for m, k in gen.LAYOUTS if countpos(m, k)]


def counts(ctx):
    for i in range(ctx.n(1500)):
        mode, key = GROUPED[i % len(GROUPED)]
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        fields = gen.fields_for(ctx.rng, mode, key)
        for p in countpos(mode, key):
            fields[p] = ctx.rng.choice(COUNTS)
        if ctx.rng.random() < 0.5:
            fields = fields[: ctx.rng.randint(countpos(mode, key)[0] + 1, len(fields))]
        ctx.count("counted_layouts")
        ctx.seen(key, fields[countpos(mode, key)[0]], len(fields))
        ctx.case("one", raw=spec.frame(talker, msgid, fields), mode=mode)


def layouts(ctx):
    for i in range(ctx.n(1500)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        fields = gen.fields_for(ctx.rng, mode, key)
        big = ctx.rng.choice(COUNTS)
        for j, (_, typ, _) in enumerate(spec.walk(spec.DEFS[mode][key], fields)):
            if typ in ("IN", "DE", "ST", "HX") and j < len(fields) and j > 0 and ctx.rng.random() < 0.8:
                fields[j] = big
        if ctx.rng.random() < 0.2:
            fields += ["1"] * ctx.rng.choice((1, 50, 500))
        ctx.seen(key, big, len(fields))
        ctx.case("one", raw=spec.frame(talker, msgid, fields), mode=mode, validate=ctx.rng.randrange(4))


USER = [
    [["n", "IN"], ["g", ["n", [["a", "IN"]]]]],
    [["n", "IN"], ["m", "IN"], ["g", ["n", [["a", "IN"], ["h", ["m", [["b", "ST"]]]]]]]],
    [["n", "IN"], ["g", ["n", [["a", "IN"], ["h", ["n", [["b", "ST"], ["i", ["n", [["c", "ST"]]]]]]]]]]],
    [["g", ["None", [["a", "ST"], ["h", ["None", [["b", "ST"]]]]]]]],
    [["n", "IN"], ["g", [3, [["a", "IN"], ["h", ["n", [["b", "ST"]]]]]]]],
    [["n", "DE"], ["g", ["n", [["a", "IN"]]]]],
    [["n", "IN"], ["g", ["n", [["a", "IN"], ["b", "ST"]]]], ["k", ["n", [["c", "ST"]]]]],
]


def userdefs(ctx):
    for _ in range(ctx.n(700)):
        msgid = gen.unknown_id(ctx.rng)
        d = ctx.rng.choice(USER)
        fields = [ctx.rng.choice(COUNTS), ctx.rng.choice(COUNTS)]
        fields += [str(ctx.rng.randint(0, 9)) for _ in range(ctx.rng.choice((0, 1, 2, 5, 20, 60)))]
        ctx.seen("user", fields[0], fields[1], len(fields))
        ctx.case("one", raw=spec.frame("GN", msgid, fields), mode=0, user=[[msgid, d]])


def case_memory(ctx, raw, mode):
    warm()
    metered_first = metered(lambda: parse(raw, mode), bound(raw))
    ctx.check(not metered_first[2], "work not bounded by sentence length", lambda: f"{raw[:200]!r}")
    tracemalloc.start()
    try:
        res = parse(raw, mode)
        cur, peak = tracemalloc.get_traced_memory()
    finally:
        tracemalloc.stop()
    lim = MEMBASE + MEMBYTE * len(raw)
    ctx.check(peak <= lim, "memory not bounded by sentence length",
              lambda: f"peak {peak} bytes for {len(raw)}: {raw[:200]!r}")
    ctx.count("peak_measured")
    judge(ctx, res[0], res[1], raw.count(b","), raw)


def memory(ctx):
    for i in range(ctx.n(120)):
        mode, key = ctx.rng.choice(GROUPED + [ctx.rng.choice(gen.LAYOUTS)])
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        fields = gen.fields_for(ctx.rng, mode, key)
        for p in countpos(mode, key):
            fields[p] = ctx.rng.choice(COUNTS)
        ctx.seen("mem", key, i % 50)
        ctx.case("memory", raw=spec.frame(talker, msgid, fields), mode=mode)


def case_reader(ctx, lines, mode):
    warm()
    data = b"".join(lines)

    def work():
        r = NMEAReader(stream_of(data), msgmode=mode, quitonerror=0)
        out = []
        for _ in range(len(data) + 5):
            raw, m = r.read()
            if raw is None:
                break
            out.append((raw, m))
        return out

    limit = bound(data) + 50 * len(data) + BASE * len(lines) // 4
    res, n, aborted = metered(work, limit)
    ctx.count("line_events", n)
    ctx.check(not aborted, "work not bounded by sentence length", lambda: f"{data[:200]!r}")
    for raw, m in res:
        if m is not None:
            judge(ctx, "msg", m, raw.count(b","), raw)


def reader(ctx):
    for i in range(ctx.n(120)):
        mode = ctx.rng.randrange(3)
        lines = []
        for _ in range(ctx.rng.randint(1, 5)):
            m, key = ctx.rng.choice(GROUPED)
            talker, msgid = gen.talker_for(ctx.rng, m, key)
            fields = gen.fields_for(ctx.rng, m, key, reps=2)
            for p in countpos(m, key):
                fields[p] = ctx.rng.choice(COUNTS)
            lines.append(spec.frame(talker, msgid, fields))
            mode = m
        ctx.seen("reader", i, len(lines))
        ctx.case("reader", lines=lines, mode=mode)


def sized(kind, n, user):
    if kind == "nominal":
        return spec.frame("GN", "ZZQ1", ["ab"] * n), None
    if kind == "indet":  # indeterminate group
        return spec.frame("GN", "RTE", ["1", "1", "A", "r"] + ["wp"] * n), None
    if kind == "counted":
        return spec.frame("GN", "QQ1", [str(n)] + ["1"] * n), {"QQ1": {"n": "IN", "g": ("n", {"a": "IN"})}}
    if kind == "nested":
        return spec.frame("GN", "QQ1", [str(n), "2"] + ["1"] * n), {
            "QQ1": {"n": "IN", "m": "IN", "g": ("n", {"a": "IN", "h": ("m", {"b": "ST"})})}}
    if kind == "lie":
        return spec.frame("GN", "QQ1", ["9" * 15, "9" * 15] + ["1"] * n), {
            "QQ1": {"n": "IN", "m": "IN", "g": ("n", {"a": "IN", "h": ("m", {"b": "ST"})})}}
    if kind == "longfield":
        return spec.frame("GN", "TXT", ["01", "01", "02", "x" * n * 3]), None
    if kind == "short":  # known layout, many surplus fields
        return spec.frame("GN", "GLL", ["1"] * n), None
    if kind == "wide":  # a definition of as many attributes
        return spec.frame("GN", "QQ1", ["x"] * n), {"QQ1": {f"a{i}": "ST" for i in range(n)}}
    if kind == "positions":
        return spec.frame("GN", "QQ1", ["5327.1", "S"] * n), {
            "QQ1": {f"{x}{i}": t for i in range(n) for x, t in (("la", "LA"), ("ns", "LAD"))}}
    if kind == "groups":
        return spec.frame("GN", "QQ1", ["1", "2"] * n), {"QQ1": {f"g{i}": (1, {f"a{i}": "IN", f"b{i}": "ST"}) for i in range(n)}}
    raise KeyError(kind)


def flood(kind, n):
    """Streams whose every byte is alike but for a sentence at the end."""
    unit = {"dollars": b"$", "noise": b"\xb5b", "headers": b"$\x01", "lines": b"$GN\n", "empty": b"\r\n", "talkers": b"$GNGLL*00\r\n",
            "line": b"x", "fields": b",1", "sentences": spec.frame("GN", "TXT", ["01", "01", "02", "x" * 30])}[kind]
    if kind in ("line", "fields"):
        return b"$GNTXT,01,01,02," + unit * n + b"*99\r\n" + spec.frame("GN", "ZDA", ["010203.00"] + ["01"] * 5)
    return unit * n + spec.frame("GN", "GLL", ["5327.04319", "S", "00214.41396", "E", "223232.00", "A", "A"])


class Canned(socket.socket):
    """A socket with everything already there."""

    def __init__(self, data):
        super().__init__()
        self.data, self.pos = data, 0

    def recv(self, n, flags=0):
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d


def chunked(data, size):
    return b"".join(b"%X\r\n%s\r\n" % (len(data[i:i + size]), data[i:i + size]) for i in range(0, len(data), size)) + b"0\r\n\r\n"


def case_flood(ctx, kind, n, nmeaonly, policy, bufsize=None, chunk=None):
    """A reader gets through any amount of anything, in time proportional to it."""
    data = {k: flood(kind, k) for k in (n, n * 4)}

    def work(k):
        kw = dict(quitonerror=policy, nmeaonly=nmeaonly, errorhandler=lambda e: None)
        if bufsize:
            s = Canned(chunked(data[k], chunk) if chunk else data[k])
            with s:
                return drain(NMEAReader(s, bufsize=bufsize, encoding=1 if chunk else 0, **kw), k)
        return drain(NMEAReader(stream_of(data[k]), **kw), k)

    def drain(r, k):
        bad = 0
        while True:
            try:
                raw, m = r.read()
            except ERRS:
                bad += 1
                continue
            if m is not None and m.msgID in ("GLL", "ZDA") or raw is None or bad > 2 * len(data[k]):
                return raw

    worst = None
    for _ in range(4):
        t = []
        for k in data:
            best = None
            for _ in range(3):
                t0 = time.process_time()
                raw = work(k)
                dt = time.process_time() - t0
                best = dt if best is None else min(best, dt)
            t.append(best)
            ctx.check(raw == data[k][-len(raw or b"x"):], "sentence behind rubbish not delivered", lambda: f"{kind} {k}: {raw!r}")
        if t[1] <= t[0] * 4 * 2.7 + 0.02:
            worst = None
            break
        worst = t
    ctx.check(worst is None, "work grows faster than the stream", lambda: f"{kind} x {n}, buffer {bufsize} chunk {chunk}: {worst} s for four times as much")
    ctx.count("floods of a socket" if bufsize else "floods")
    ctx.seen("flood", kind, n, nmeaonly, policy, bufsize, chunk)


def floods(ctx):
    for n in ctx.rng.sample((700, 1500, 4000, 9000), 2 if ctx.tier == "quick" else 4):
        for kind in ("dollars", "noise", "headers", "lines", "empty", "talkers", "line", "fields", "sentences"):
            for nmeaonly in (False, True):
                ctx.case("flood", kind=kind, n=n, nmeaonly=nmeaonly and kind != "noise", policy=ctx.rng.randrange(3))


def sockets(ctx):
    for kind, n in (("dollars", 100000), ("noise", 30000), ("line", 60000), ("fields", 20000), ("sentences", 1300), ("talkers", 5000)):
        for bufsize in (512, 4096, 1 << 20):
            ctx.case("flood", kind=kind, n=n, nmeaonly=False, policy=ctx.rng.randrange(3), bufsize=bufsize)
        ctx.case("flood", kind=kind, n=n, nmeaonly=False, policy=ctx.rng.randrange(3), bufsize=ctx.rng.choice((4096, 1 << 20)),
                 chunk=ctx.rng.choice((100, 4000, 10**6)))
    # one chunk over many segments, many chunks in one segment
    for kind, n, bufsize, chunk in (("line", 600000, 128, 10**9), ("noise", 150000, 256, 10**9), ("line", 150000, 1 << 22, 3),
                                    ("sentences", 4000, 1 << 20, 2), ("noise", 60000, 16, 10**9)):
        ctx.case("flood", kind=kind, n=n, nmeaonly=False, policy=ctx.rng.randrange(3), bufsize=bufsize, chunk=chunk)


def case_growth(ctx, kind, n):
    """Lines and CPU time may at most grow in proportion to the length."""
    warm()
    small, user = sized(kind, n, None)
    large, user2 = sized(kind, n * 4, None)
    _, a, ab1 = metered(lambda: parse(small, 0, 1, user), bound(small))
    _, b, ab2 = metered(lambda: parse(large, 0, 1, user2), bound(large))
    ctx.check(not ab1 and not ab2, "work not bounded by sentence length", lambda: f"{kind} {n}")
    ctx.count("line_events", a + b)
    ratio = len(large) / len(small)
    ctx.check(b <= a * ratio * 1.5 + 5000, "work grows faster than the sentence",
              lambda: f"{kind}: {a} lines for {len(small)} bytes, {b} for {len(large)}")

    def cpu(raw, u):
        t = time.process_time()
        parse(raw, 0, 1, u)
        return time.process_time() - t

    # CPU time also sees work done inside C functions; only a gross, repeated excess counts
    worst = None
    for _ in range(4):
        x, y = min(cpu(small, user) for _ in range(3)), min(cpu(large, user2) for _ in range(2))
        if x < 0.002 or y <= x * ratio * 2.7:
            worst = None
            break
        worst = (x, y)
    ctx.check(worst is None, "work grows faster than the sentence", lambda: f"{kind}: CPU {worst}, x{ratio:.1f} bytes")
    ctx.count("growth_points")
    ctx.seen("growth", kind, n)


def growth(ctx):
    kinds = ("nominal", "indet", "counted", "nested", "lie", "longfield", "short", "wide", "positions", "groups")
    for n in ctx.rng.sample((300, 1000, 3000, 8000, 20000), 3 if ctx.tier == "quick" else 5):
        for kind in kinds:
            ctx.case("growth", kind=kind, n=n)


UNITS = [chr(i) for i in range(32, 127) if chr(i) not in "*A"] + [
    "\0", "\t", "\x1f", "\x7f", "\x85", "\xa0", "\u2028", "\u0660", "\uff11", "e\u0301", "\U0001f600", "-.", "1.", "1_", "[]", "][",
    "aA", "01", "$,", ",0", "x,", "..", "1e", "+-", " a", "\0 ", "\r", "\r ", "\x0b", "N,", "_1", "%d", "\\", "a_", "\u00df",
]
PLACES = ("first", "second", "last", "every", "msgid", "talker", "cksum", "before", "behind")


def case_runs(ctx, unit, n, place, tail, key, mode, good):
    """A long run of one unit costs no more than its length."""
    warm()
    run = unit * (n // len(unit.encode())) + tail
    rng = __import__("random").Random(n)
    if key is None:
        talker, msgid, fields = "GN", "ZZQ1", ["1", "2", "3"]
    else:
        talker, msgid = gen.talker_for(rng, mode, key)
        fields = gen.fields_for(rng, mode, key)
    if place == "first":
        fields[:1] = [run]
    elif place == "second":
        fields[1:2] = [run]
    elif place == "last":
        fields[-1:] = [run]
    elif place == "every":
        fields = [run[: n // 8]] * min(len(fields), 8)
    elif place == "msgid":
        msgid += run
    elif place == "talker":
        talker += run
    raw = spec.frame(talker, msgid, fields, None if good else "00")
    if place == "cksum":
        raw = raw[:-2] + run.encode() + b"\r\n"
    elif place == "before":
        raw = run.encode() + raw
    elif place == "behind":
        raw = raw + run.encode()
    best = None
    for _ in range(3):  # only work, repeated, counts: not what other processes do
        t = time.thread_time()
        k, m = parse(raw, mode, rng.randrange(4))
        if k == "msg":
            str(m), m.serialize()
        t = time.thread_time() - t
        best = t if best is None else min(best, t)
        if best <= 1.0 + raw.count(b",") * 4e-5:
            break
    ctx.check(best <= 1.0 + raw.count(b",") * 4e-5, "work grows faster than the sentence",
              lambda: f"{best:.1f} s for {len(raw)} bytes: {unit!r} {place} {key}: {raw[:60]!r}...{raw[-40:]!r}")
    ctx.count("runs")
    ctx.seen("run", unit, place)


def runs(ctx):
    rng = ctx.rng
    for i in range(ctx.n(110)):
        unit = UNITS[i % len(UNITS)] if rng.random() < 0.8 else rng.choice(UNITS)
        mode, key = rng.choice(gen.LAYOUTS) if rng.random() < 0.7 else (0, None)
        ctx.case("runs", unit=unit, n=20000 if "," in unit else 100000, place=rng.choice(PLACES),
                 tail=rng.choice(("", "x", "1", " ", "*")), key=key, mode=mode, good=rng.random() < 0.85)
