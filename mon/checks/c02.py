"""C02 total parsing: hostile input only ever yields documented outcomes."""

import array
import datetime as dtm
import decimal
import io
import logging
import os
import random
import socket

from mon import gen, spec
from mon.core import VERIF
from mon.lib import ERRS, NMEAMessage, ByteStream, attrs, make, parse, pynmeagps, reader

PROPERTY = "C02"
RULE = (
    "Hostile sentences (every layout and mode with wrong-typed, blank, huge, non-ASCII and "
    "missing fields, byte mutations of real sentences, random bytes and text), all validation "
    "flags, user definitions; hostile streams under all error policies from files and sockets. "
    "Non-trivial: distinct (outcome, layout/id, field count, mode, flags) observed."
)
NEED = {"parse_msg": 3000, "parse_err": 3000, "parse_none": 100, "str_repr": 3000,
        "reader_eof": 500, "reader_reports": 500, "reader_raised": 300, "layouts": 500, "invalid_modes": 1000, "built_wrong": 2000, "refused_wrong": 1500, "not_text": 3000, "bare_built": 1000, "bare_refused": 1000}
QUICK = 6

with open(os.path.join(VERIF, "golden", "sentences.txt"), "rb") as _f:
    REAL = _f.read().splitlines(keepends=True)

HOSTILE = [
    "", " ", "0", "-1", "00", "1e400", "-1e400", "nan", "inf", "9" * 30, "9" * 400, "-" + "9" * 30, ".",
    "-", "+", "--1", "1.", ".1", "1_0", "0x1f", "é", "日本", "\u00a0", "١٢", "１２", "\x00", "\x7f", "\x1f",
    "None", "True", "[1]", "[", "]", "{}", "%s", "{0}", "\\", "'", '"', "'\"", "N", "S", "E", "W", "OK", "ERROR",
    "R", "V", "A", "5959.99999", "9999999.9", "-0100.0", "0000.0", "12345.6", "nan00.0", "inf.0",
    "1e99.0", "0000.", "....", "00.000", "000000", "240000.00", "235960", "235959.999999999",
    "236000.00", "-10000.00", "000000.", "12:00:00", "310269", "000000", "290200", "00000000", "31129999",
    "01010000", "99999999", "２３５９５９", "2 3 5 9", "1,1", "\t", "\n", "\r", "a\nb", "x" * 300, "\ud7ff", "😀",
    "²", "½", "Ⅷ", "௧", "߁", "1\x002", "12\n", " 12", "12 ", "_", "field_01", "__class__", "-0", "1e5", "2147483648",
    "18446744073709551616", "9" * 4301, "1" * 5000,
]
SURROGATES = ["\ud800", "\udcff", "a\udc80b"]


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k)
            for n in ("layouts", "rawbytes", "rawtext", "selectors", "bare", "userdefs", "streams", "streams2", "sockets", "construct")]


def case_parse(ctx, raw, mode, validate, user=None):
    if user is not None:
        user = user_of(user)
    k, v = parse(raw, mode, validate, user)
    ctx.count("parse_" + k)
    if k == "msg":
        s, r = str(v), repr(v)
        ctx.check(isinstance(s, str) and isinstance(r, str), "str/repr type")
        v.identity, v.payload, v.checksum, v.talker, v.msgID, v.msgmode  # noqa
        if isinstance(raw, bytes):
            v.serialize()
        ctx.count("str_repr")
        ctx.seen("msg", v.identity[:12], len(v.payload), mode, validate)
    else:
        ctx.seen(k, type(v).__name__, len(raw) // 8, raw[:7], mode, validate)


def user_of(u):
    """Decode [[name, type | [n, [...]]], ...] into a definition dictionary."""
    def d(x):
        return {k: ((v[0], d(v[1])) if isinstance(v, list) else v) for k, v in x}
    return {k: d(v) for k, v in u}


def hostile(rng):
    if rng.random() < 0.25:
        return gen.text(rng)
    return rng.choice(HOSTILE)


def frames(rng, talker, msgid, fields):
    ck = None if rng.random() < 0.9 else rng.choice(("", "0", "ZZ", "é", "*", "A*"))
    return spec.frame(talker, msgid, fields, ck, rng.choice((b"\r\n", b"\r\n", b"\n", b"")))


def layouts(ctx):
    rng = ctx.rng
    keys = [(m, k) for m in (0, 1, 2) for k in spec.DEFS[m]]
    for i in range(ctx.n(12000)):
        mode, key = keys[i % len(keys)]
        ctx.count("layouts")
        talker, msgid = gen.talker_for(rng, mode, key) if all(
            t in spec.TYPES for _, t in spec.flat(spec.DEFS[mode][key])) else ("GN", key)
        try:
            fields = gen.fields_for(rng, mode, key, 0.3)
        except KeyError:
            fields = []
        keep = rng.random()
        for j in range(len(fields)):
            if rng.random() < 0.2:
                fields[j] = hostile(rng)
        if keep < 0.3:
            fields = fields[: rng.randint(0, len(fields))]
        elif keep < 0.4:
            fields += [hostile(rng) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.3:
            mode = rng.randrange(3)
        ctx.case("parse", raw=frames(rng, talker, msgid, fields), mode=mode, validate=rng.randrange(4))


def selectors(ctx):
    """Ids with sub-selectors, bare ids, every count of blank/hostile fields."""
    rng = ctx.rng
    ids = sorted(set(spec.PREFIX) | spec.PROP | {k for m in (0, 1, 2) for k in spec.DEFS[m]})
    for _ in range(ctx.n(1)):
        for msgid in ids:
            for talker in ("P", "GN", "", "PX"):
                for n in (0, 1, 2, 3):
                    fields = [rng.choice(("", "", hostile(rng), "0", "00", "GGK", "A", "1")) for _ in range(n)]
                    ctx.case("parse", raw=spec.frame(talker, msgid, fields), mode=rng.randrange(3),
                             validate=rng.randrange(4))
                    ctx.case("parse", raw=spec.frame(talker, msgid, [""] * n), mode=n % 3, validate=1)


def rawbytes(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(15000)):
        k = rng.randrange(4)
        if k == 0:
            raw = rng.randbytes(rng.randint(0, 60))
        elif k == 1:
            raw = rng.choice(REAL)
            for _ in range(rng.randint(1, 4)):
                raw = gen.mutate(rng, raw)[0] if raw else b"$"
        elif k == 2:
            body = bytes(rng.choice(b"$*,,,PGNAUBX0123.-\r\n\x00\xff\xc3 ") for _ in range(rng.randint(0, 30)))
            raw = b"$" + body + b"*%02X\r\n" % spec.xor(body)
        else:
            raw = rng.choice(REAL)
            star = raw.rfind(b"*")
            body = bytearray(raw[1:star])
            for _ in range(rng.randint(1, 4)):
                if body:
                    body[rng.randrange(len(body))] = rng.choice(b",,,.-+eE 0x9N\x00\xc3")
            raw = b"$" + bytes(body) + b"*%02X\r\n" % spec.xor(body)
        ctx.case("parse", raw=raw, mode=rng.randrange(3), validate=rng.randrange(4))
        if rng.random() < 0.01:
            ctx.case("badmode", raw=raw, mode=rng.choice((3, -1, 4, 255)), validate=rng.randrange(4))


def case_badmode(ctx, raw, mode, validate):
    k, v = parse(raw, mode, validate)
    ctx.check(k == "err", "invalid mode accepted", lambda: f"{mode}: {k} {v}")
    for what, fn in (("reader", lambda: reader(ByteStream(raw), msgmode=mode, validate=validate)),
                     ("message", lambda: NMEAMessage("GN", "GLL", mode, validate=validate)),
                     ("payload", lambda: NMEAMessage("GN", "ZZ1", mode, payload=["1"]))):
        try:
            fn()
        except ERRS:
            ctx.count("invalid_modes")
        else:
            ctx.check(False, "invalid mode accepted", lambda: f"{what} {mode}")  # noqa: B023


def wrong(rng, typ=None):
    """A value of some type or other, rarely the one the field has."""
    vals = [None, 0, 1, -1, True, 1.5, float("nan"), -float("inf"), 5e-324, "", "x",
            "1", "1.5", "é", "\x00", "\ud800", "1" * 5000, b"x", b"", bytearray(b"1"), [], [1], {}, {"a": 1}, (), (1, 2), {1},
            object(), dtm.datetime(2024, 2, 29, 1, 2, 3), dtm.date(1, 1, 1), dtm.time(1, 2, 3), dtm.timedelta(1),
            decimal.Decimal("1"), decimal.Decimal("NaN"), decimal.Decimal("sNaN"), decimal.Decimal("-Infinity"), 1j, len, type, range(3), iter([1]), NotImplemented, Exception("x")]
    if typ in ("LA", "LN", "DE") and rng.random() < 0.15:  # never for what may be the size of a group
        return rng.choice((10**400, -(10**400), 10**309, 10**30, 2.0**70, float("inf"), 1e308, decimal.Decimal("1E+400")))
    return rng.choice(vals)


def case_construct(ctx, mode, key, talker, msgid, seed, route, hp):
    """Wrongly typed values: a message, or one of the documented exceptions."""
    rng = random.Random(seed)
    types = dict(spec.flat(spec.DEFS[mode][key]))
    if route == "payload":
        f = list(gen.fields_for(rng, mode, key))
        for _ in range(rng.randint(1, 3)):
            if f:
                f[rng.randrange(len(f))] = wrong(rng)
        w = wrong(rng)
        if isinstance(w, (dict, set)) or hasattr(w, "__next__"):  # neither a sequence nor something else
            w = None
        kw = {"payload": f if rng.random() < 0.9 else w}
    else:
        kw = gen.kwargs_for(rng, mode, key)
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(sorted(set(kw) | set(types)) or ["zz"])
            kw[n] = wrong(rng, types.get(n.rsplit("_", 1)[0] if n not in types else n))
    try:
        m = NMEAMessage(talker, msgid, mode, hpnmeamode=hp, **kw)
    except ERRS as err:
        ctx.count("refused_wrong")
        ctx.seen("refused", type(err).__name__, key, mode)
        return
    ctx.count("built_wrong")
    ctx.check(isinstance(m.identity, str) and m.msgmode == mode, "identity or mode of a built message")
    ctx.seen("built", key, mode, len(attrs(m)))


def construct(ctx):
    rng = ctx.rng
    for i in range(ctx.n(6000)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(rng, mode, key)
        ctx.case("construct", mode=mode, key=key, talker=talker, msgid=msgid, seed=rng.randrange(2**32),
                 route=rng.choice(("payload", "kw", "kw")), hp=rng.random() < 0.3)


SELECTORS = ("msgId", "msgtype", "portid", "msgid", "status", "mode", "size", "rate", "field", "PortID", "value", "mSGId")


def case_bare(ctx, mode, talker, msgid, validate, n, seed):
    """An id built with none, some or nonsense of the attributes that select its variant."""
    rng = random.Random(seed)
    kw = {name: wrong(rng) if n == 4 else rng.choice(("", "0", "1", 0, 1, "GGA", wrong(rng)))
          for name in rng.sample(SELECTORS, (0, 1, 2, len(SELECTORS), rng.randint(0, 4), 0)[n])}
    if n == 4:
        kw.update({f: wrong(rng) for f in rng.sample(("lat", "lon", "NS", "EW", "time", "date", "numMsg"), 2)})
    if n == 5:
        kw = {"payload": [rng.choice(("", "0", "1", "R", "W", "OK")) for _ in range(rng.randint(0, 4))]}
    try:
        m = NMEAMessage(talker, msgid, mode, validate=validate, **kw)
    except ERRS as err:
        ctx.count("bare_refused")
        ctx.seen("bare", type(err).__name__, talker + msgid, mode, n)
        return
    ctx.count("bare_built")
    ctx.check(isinstance(m.identity, str) and isinstance(str(m), str) and isinstance(repr(m), str),
              "a message built from little", lambda: repr(m.identity))
    ctx.seen("bare", "built", m.identity, mode, n)


def bare(ctx):
    """Every id, family and layout x modes x ways to leave its selectors out."""
    rng = ctx.rng
    ids = {("P", k) for k in set(spec.PREFIX) | spec.PROP} | {("GN", k) for k in spec.STD}
    for m in (0, 1, 2):
        for k in spec.DEFS[m]:
            t, msgid, _ = spec.base_id(m, k)
            ids |= {(t or "GN", msgid), (t or "GN", k)}
    for talker, msgid in sorted(ids):
        for mode in (0, 1, 2):
            for n in range(6):
                ctx.case("bare", mode=mode, talker=talker, msgid=msgid, validate=rng.randrange(4), n=n,
                         seed=rng.randrange(2**32))


NOT_TEXT = [None, 0, -1, 2**80, True, 1.5, float("nan"), 1j, [], [b"$GNGLL*00"], (), ("$",), {}, {"*": 1}, set(), object, len, range(3),
            Ellipsis, array.array("B", b"$GNGLL,,,,,,*00\r\n"), decimal.Decimal(1), dtm.date(2024, 1, 1), Exception("*")]


def case_other(ctx, raw, wrap, mode, validate):
    """Not bytes or text at all, though perhaps bytes-like: still only a documented outcome."""
    arg = {"bytearray": bytearray, "memoryview": memoryview, "array": lambda b: array.array("B", b),
           "list": list, "bytesio": io.BytesIO, "index": lambda b: NOT_TEXT[len(b) % len(NOT_TEXT)]}[wrap](raw)
    k, v = parse(arg, mode, validate)
    if k == "msg":
        str(v), repr(v)
    ctx.count("not_text")
    ctx.seen("other", wrap, type(arg).__name__, k, type(v).__name__, mode, validate)


def rawtext(ctx):
    for i in range(ctx.n(700)):
        ctx.case("other", raw=ctx.rng.choice(REAL)[:ctx.rng.choice((200, 200, i % 60))], mode=ctx.rng.randrange(3),
                 wrap=ctx.rng.choice(("bytearray", "memoryview", "array", "list", "bytesio", "index", "index")),
                 validate=ctx.rng.randrange(4))
    rng = ctx.rng
    for _ in range(ctx.n(12000)):
        k = rng.randrange(3)
        if k == 0:
            raw = "".join(chr(rng.choice((rng.randrange(128), rng.randrange(0x3000), rng.randrange(0x110000))))
                          for _ in range(rng.randint(0, 20)))
        else:
            _, talker, msgid, fields, _ = gen.sentence(rng, 0.2)
            fields = [rng.choice(SURROGATES) if rng.random() < 0.1 else hostile(rng) if rng.random() < 0.2 else f
                      for f in fields]
            body = ",".join([talker + msgid] + fields)
            raw = "$" + body + "*" + rng.choice(("00", spec.cks(body.encode("utf-8", "surrogatepass")), "\ud800")) + "\r\n"
        ctx.case("parse", raw=raw.encode("utf-8", "surrogatepass").decode("utf-8", "surrogatepass"),
                 mode=rng.randrange(3), validate=rng.randrange(4))


def rand_def(rng, depth=0):
    out = []
    used = set()
    for i in range(rng.randint(0, 6)):
        name = rng.choice(("a", "b_c", "lat", "lon", "NS", "EW", "num", "x1", "msgId", "Zz")) + rng.choice(("", "", str(i)))
        if name in used:
            continue
        used.add(name)
        if depth < 2 and rng.random() < 0.2:
            d = rand_def(rng, depth + 1)
            if d:
                out.append([name, [rng.choice((1, 3, "None", "num", "a", "zz", "lat")), d]])
                continue
        out.append([name, rng.choice(spec.TYPES) if rng.random() < 0.97 else rng.choice(("ZZ", "", "U1"))])
    return out


def userdefs(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8000)):
        msgid = gen.unknown_id(rng)
        d = rand_def(rng)
        fields = [hostile(rng) if rng.random() < 0.4 else rng.choice(("1", "2", "3", "0101.5", "W", "010203"))
                  for _ in range(rng.randint(0, 14))]
        ctx.case("parse", raw=spec.frame(rng.choice(("GN", "P", "XX")), msgid, fields), mode=rng.randrange(3),
                 validate=rng.randrange(4), user=[[rng.choice((msgid, msgid, "GGA")), d]])


# ---------------------------------------------------------------- readers
class Formatting(logging.Handler):
    """A log sink that formats every record, as a real one does."""

    def __init__(self):
        super().__init__()
        self.n = 0
        self.err = None

    def emit(self, record):
        self.n += 1
        try:
            self.format(record)
        except Exception as err:  # noqa
            self.err = err


class Short(ByteStream):
    """A stream whose readline stops short now and then (serial timeout)."""

    def readline(self):
        self.reads += 1
        i = self.buf.find(b"\n")
        n = len(self.buf) if i < 0 else i + 1
        if self.reads % 5 == 0 and n > 4:
            n = n // 2
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d


def case_stream(ctx, data, mode, validate, policy, nmeaonly, handler, kind, iterate):
    st = {"bytesio": io.BytesIO, "bytes": ByteStream, "short": Short}[kind](data)
    rep = []
    sink = Formatting()
    log = logging.getLogger("pynmeagps")
    log.addHandler(sink)
    try:
        r = reader(st, msgmode=mode, validate=validate, quitonerror=policy, nmeaonly=nmeaonly,
                       errorhandler=rep.append if handler else None)
        # each read consumes at least one byte or ends
        limit = len(data) + 10
        ended = False
        raised = n = 0
        it = iter(r)
        for _ in range(limit):
            try:
                if iterate:
                    try:
                        raw, msg = next(it)
                    except StopIteration:
                        ended = True
                        break
                else:
                    raw, msg = r.read()
                    if raw is None and msg is None:
                        ended = True
                        break
                n += 1
            except ERRS as err:
                ctx.check(policy == 2, "reader raised", lambda: f"policy {policy}: {err!r}")
                raised += 1
                if str(err) is None:
                    break
        ctx.check(ended, "end of stream not reached", lambda: f"{n} items, {raised} raised")
        raw, msg = r.read()
        ctx.check(raw is None and msg is None, "data after end of stream")
        ctx.check(sink.err is None, "log record cannot be formatted", lambda: repr(sink.err))
        for e in rep:
            ctx.check(isinstance(e, ERRS), "undocumented error reported", lambda: repr(e))
        ctx.check(policy != 0 or not (rep or sink.n), "report despite ignore policy")
    finally:
        log.removeHandler(sink)
    ctx.count("reader_eof")
    ctx.count("reader_items", n)
    ctx.count("reader_reports", len(rep) + sink.n)
    ctx.count("reader_raised", raised)
    ctx.seen("stream", policy, n, raised, len(rep) + sink.n, len(data))


def blob(rng):
    out = b""
    for _ in range(rng.randint(0, 14)):
        k = rng.randrange(9)
        if rng.random() < 0.015:  # a long run
            out += rng.choice((b"$", b"$", b"\n", b"\r\n", b"$\x01", b"\xff", b"$$\n", b"$P\n")) * rng.choice((300, 1200, 1200, 5000))
        if k == 0:
            out += rng.randbytes(rng.randint(0, 40))
        elif k == 1:
            out += gen.ubx(rng)
        elif k == 2:
            out += bytes(rng.choice(b"$$$GPBN\r\n*,\x00") for _ in range(rng.randint(1, 20)))
        elif k == 3:
            out += gen.mutate(rng, rng.choice(REAL))[0]
        elif k == 4:
            mode, talker, msgid, fields, ck = gen.sentence(rng, 0.3)
            out += spec.frame(talker, msgid, [hostile(rng) if rng.random() < 0.2 else f for f in fields])
        elif k == 5:
            out += b"$" + rng.choice(gen.STDTALK + ["P", "PX"]).encode() + rng.randbytes(rng.randint(0, 9)) + b"\n"
        elif k == 6:
            out += gen.noise(rng)
        else:
            out += rng.choice(REAL)
    if rng.random() < 0.4:
        out = out[: rng.randint(0, len(out))]
    return out


def streams(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1500)):
        ctx.case("stream", data=blob(rng), mode=rng.randrange(3), validate=rng.randrange(4),
                 policy=rng.randrange(3), nmeaonly=rng.random() < 0.4, handler=rng.random() < 0.5,
                 kind=rng.choice(("bytesio", "bytes", "short")), iterate=rng.random() < 0.5)


streams2 = streams


class Sock(socket.socket):
    def __init__(self, segs):
        super().__init__(socket.AF_INET, socket.SOCK_STREAM)
        self.segs = segs
        self.calls = 0

    def recv(self, n, flags=0):
        self.calls += 1
        if not self.segs:
            return b""
        s = self.segs.pop(0)
        if s is None:
            raise TimeoutError("timed out")
        if s == b"!":
            raise OSError("reset")
        return s


def case_socket(ctx, segs, encoding, policy, nmeaonly):
    total = sum(len(s) for s in segs if s)
    with Sock(list(segs)) as sk:
        r = reader(sk, quitonerror=policy, nmeaonly=nmeaonly, encoding=encoding, errorhandler=lambda e: None)
        ends = 0
        for _ in range(8 * total + 40 * len(segs) + 100):
            try:
                raw, msg = r.read()
            except ERRS as err:
                ctx.check(policy == 2, "reader raised", lambda: f"policy {policy}: {err!r}")
                continue
            if raw is None and msg is None:
                ends += 1
                if ends > len(segs) + 2:
                    break
        ctx.check(ends > len(segs) + 2, "end of stream not reached", lambda: f"{ends} ends of {len(segs)} segments")
    ctx.count("socket_eof")
    ctx.seen("socket", encoding, policy, len(segs), total)


def sockets(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200)):
        data = blob(rng)
        enc = rng.choice((0, 0, 1, 1, 3, 5, 9, 15, 2))
        if enc and rng.random() < 0.8:
            out = b""
            for _ in range(rng.randint(1, 6)):
                p = blob(rng)[:200]
                ln = rng.choice((b"%x" % len(p), b"%X" % len(p), b"-1", b"-%x" % len(p), b"F" * 18, b"F" * 400, b"zz", b"",
                                 b"0", b"%x;ext=1" % len(p), b"1_0", b" 5", b"%x" % (len(p) + 1), b"\xff"))
                out += ln + b"\r\n" + p + rng.choice((b"\r\n", b"\r\n", b"", b"\n"))
            data = out
        segs = []
        i = 0
        while i < len(data):
            n = rng.choice((1, 2, 7, 40, 500, 4000))
            segs.append(data[i:i + n])
            i += n
            if rng.random() < 0.1:
                segs.append(rng.choice((None, b"!")))
        ctx.case("socket", segs=segs, encoding=enc, policy=rng.randrange(3), nmeaonly=rng.random() < 0.3)
