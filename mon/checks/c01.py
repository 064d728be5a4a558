"""C01 checksum gate."""

from mon import gen, spec
from mon.lib import ERRS, errname, expect_attrs, drain, parse, stream_of, reader
from pynmeagps import calc_checksum, generate_checksum
from mon.core import show

PROPERTY = "C01"
RULE = (
    "Valid sentences of every layout and of unknown ids (random ASCII, UTF-8 and control "
    "content), corrupted copies of them (every single-bit flip, byte substitution, insertion, "
    "deletion, swap, checksum edits) and streams of both; an independent byte-wise judge says "
    "whether the checksum text matches the content bytes. Non-trivial: distinct (content "
    "checksum, checksum text, operator) combinations whose verdict was compared."
)
NEED = {"accepted": 500, "rejected": 2000, "stream_rejected": 300, "stream_accepted": 300,
        "validation_off": 200, "utf8_accepted": 50, "helper": 500, "pairs": 60000}
QUICK = 6


def jobs(tier):
    k = 2 if tier == "quick" else 4
    names = ["valid", "mutants", "flips", "stream", "off", "helpers"]
    return ["pairs#0", "pairs#1"] + [f"{n}#{i}" for i in range(k) for n in names]


def _verdict(ctx, raw, mode, validate, op):
    """Parse raw with checksum validation and compare with the independent judge."""
    ok = spec.raw_ok(raw)
    k, v = parse(raw, mode, validate)
    if ok:
        ctx.count("accepted")
        if k == "msg":
            ctx.count("accepted_message")
            ctx.check(v.serialize().strip(b"$\r\n") == raw.strip(b"$\r\n"), "altered message",
                      lambda: f"{raw!r} -> {v.serialize()!r}")
        elif validate & 2 == 0:
            ctx.check(k == "err" and errname(v) == "NMEATypeError", "valid sentence refused",
                      lambda: f"{raw!r} mode {mode}: {k} {v}")
        else:
            ctx.check(k == "err" and "checksum" not in str(v).lower(), "valid sentence refused",
                      lambda: f"{raw!r} mode {mode}: {k} {v}")
    else:
        ctx.count("rejected")
        ctx.check(k != "msg", "corrupt sentence accepted",
                  lambda: f"{op}: {raw!r} mode {mode} -> {v}")
    ctx.seen(op, ok, raw[-6:], spec.xor(raw))


def case_one(ctx, raw, mode, validate, op):
    _verdict(ctx, raw, mode, validate, op)


def case_valid(ctx, mode, talker, msgid, fields, lower, aschars):
    c = spec.content(talker, msgid, fields)
    ck = spec.cks(c)
    ck = {0: ck, 1: ck.lower(), 2: ck[0].lower() + ck[1], 3: ck[0] + ck[1].lower()}[lower]
    raw = spec.frame(talker, msgid, fields, ck)
    k, v = parse(raw.decode("utf-8") if aschars else raw, mode, 1)
    try:
        _, exp, _ = spec.decode(mode, talker, msgid, fields)
    except spec.TypeErr:
        ctx.check(k == "err" and errname(v) == "NMEATypeError", "valid sentence refused",
                  lambda: f"{raw!r}: {k} {v}")
        return
    loose = any(e[0] == "any" for _, e in exp)
    ctx.check(k == "msg" or (loose and k == "err" and errname(v) == "NMEATypeError"),
              "valid sentence refused", lambda: f"{raw!r} mode {mode}: {k} {v}")
    if k == "msg":
        ctx.count("accepted")
        if not c.isascii():
            ctx.count("utf8_accepted")
        ctx.check(v.checksum == ck, "checksum text altered", lambda: f"{raw!r}: {v.checksum}")
        ctx.seen("valid", ck, msgid, mode)
        ctx.sample(raw)


def valid(ctx):
    for i in range(ctx.n(9000)):
        lay = gen.LAYOUTS[i % len(gen.LAYOUTS)] if i % 3 else None
        mode, talker, msgid, fields, _ = gen.sentence(ctx.rng, layout=lay, unknown=0.4)
        if ctx.rng.random() < 0.25:
            fields = [gen.text(ctx.rng) for _ in range(ctx.rng.randint(0, 8))]
            msgid = gen.unknown_id(ctx.rng)
            if ctx.rng.random() < 0.3:
                msgid = gen.text(ctx.rng, "wide", 5)
        ctx.case("valid", mode=mode, talker=talker, msgid=msgid, fields=fields,
                 lower=ctx.rng.choice((0, 0, 1, 2, 3)), aschars=ctx.rng.random() < 0.2)


def mutants(ctx):
    for _ in range(ctx.n(25000)):
        mode, talker, msgid, fields, ck = gen.sentence(ctx.rng)
        raw = spec.frame(talker, msgid, fields, ck)
        for _ in range(ctx.rng.choice((1, 1, 1, 2, 3))):
            if raw:
                raw, op = gen.mutate(ctx.rng, raw)
        ctx.case("one", raw=raw, mode=mode, validate=ctx.rng.choice((1, 1, 3)), op=op)


def flips(ctx):
    """Exhaustive single-bit flips and byte substitutions of a few sentences."""
    for i in range(ctx.n(6)):
        mode, talker, msgid, fields, ck = gen.sentence(ctx.rng)
        raw = spec.frame(talker, msgid, fields[:12], None)
        for p in range(len(raw)):
            for x in (range(256) if i == 0 else [raw[p] ^ (1 << b) for b in range(8)]):
                if x != raw[p]:
                    ctx.case("one", raw=raw[:p] + bytes([x]) + raw[p + 1:], mode=mode, validate=1,
                             op="flip")
        star = raw.rfind(b"*")
        for tail in (b"", b"*", b"*" + raw[star + 1:star + 2], raw[star:star + 3] + b"0",
                     b"*0" + raw[star + 1:star + 3], b"* " + raw[star + 1:star + 3],
                     raw[star:star + 3] + b" ", b"*0x" + raw[star + 1:star + 3], b"*+" + raw[star + 1:star + 3],
                     b"**" + raw[star + 1:star + 3], b"*\xef\xbc\x91\xef\xbc\x92", b"*--", b"*00*", b"*None"):
            for term in (b"\r\n", b"\n", b"\r", b""):
                ctx.case("one", raw=raw[:star] + tail + term, mode=mode, validate=1, op="tail")
        for head in (b"\xef\xbb\xbf", b" ", b"\t", b"\0", b"x", b"!", b"\\g:1-2-3*5A\\", b"\xc2\xa0", b"$\xef\xbb\xbf", b"$ "):
            ctx.case("one", raw=head + raw, mode=mode, validate=1, op="head")
            ctx.case("one", raw=head + raw[1:], mode=mode, validate=1, op="head")


def case_pairs(ctx, value):
    """A content of each checksum value against all 256 checksum texts."""
    base = "ZZZQ,%s,t" % "abc"[value % 3]
    # complete it with a wide character (for the high bit) and two plain ones
    c = next(base + w + chr(a) + chr(b)
             for w in ("", "\u65e5", "\u00e9", "\U0001f600") for a in range(0x30, 0x7F)
             for b in (spec.xor((base + w + chr(a)).encode()) ^ value,) if 0x30 <= b < 0x7F)
    val = spec.xor(c.encode())
    for w in range(256):
        for ck in {"%02X" % w, "%02x" % w}:
            k, v = parse(b"$" + c.encode() + b"*" + ck.encode() + b"\r\n")
            ctx.count("pairs")
            ctx.check((k == "msg") == (w == val), "checksum verdict",
                      lambda: f"content checksum {val:02X}, text {ck}: {k}")
    ctx.check(val == value, "harness")
    ctx.seen("pairs", val)


def pairs(ctx):
    half = int(ctx.job.split("#")[1])
    for v in range(half * 128, half * 128 + 128):
        ctx.case("pairs", value=v)


def case_stream(ctx, lines, mode, policy):
    """lines: [(bytes, good)]; only good ones may be delivered with a message."""
    rep = []
    r = reader(stream_of(b"".join(x for x, _ in lines)), msgmode=mode, quitonerror=policy,
                   errorhandler=rep.append)
    out = []
    for _ in range(len(lines) * 3 + 5):
        try:
            raw, msg = r.read()
        except ERRS:
            continue
        if raw is None and msg is None:
            break
        out.append((raw, msg))
    got = [raw for raw, m in out if m is not None]
    for raw in got:
        ctx.check(spec.raw_ok(raw) is True, "corrupt sentence delivered", lambda: f"{raw!r}")
    want = [x for x, good in lines if good]
    have = [x for x in got if x in want]
    ctx.check(have == want, "valid sentence not delivered", lambda: f"{show(want)} vs {show(got)}")
    ctx.count("stream_accepted", len(want))
    ctx.count("stream_rejected", len(lines) - len(want))


def stream(ctx):
    for n in range(ctx.n(700)):
        mode = ctx.rng.choice((0, 1, 2))
        lines = []
        for i in range(ctx.rng.randint(2, 8)):
            if ctx.rng.random() < 0.5:
                raw = spec.frame("GN", "TXT" if mode == 0 else "ZZZ", ["01", "01", "02", f"u{n}.{i}"])
                lines.append((raw, True))
            else:
                m, talker, msgid, fields, ck = gen.sentence(ctx.rng, modes=(mode,))
                raw = spec.frame(talker, msgid, fields, ck)
                star = raw.rfind(b"*")
                if b"\n" in raw[:-2] or star < 4:
                    continue
                p = ctx.rng.randrange(3, star)
                x = ctx.rng.choice([y for y in range(32, 127) if y not in b"*$"])
                bad = raw[:p] + bytes([x]) + raw[p + 1:]
                if x != raw[p]:
                    lines.append((bad, False))
        ctx.case("stream", lines=lines, mode=mode, policy=ctx.rng.choice((0, 1, 2)))
        ctx.seen("stream", n)


def case_off(ctx, mode, talker, msgid, fields, ck, validate):
    """Checksum validation off: the text after '*' must not matter."""
    good = spec.frame(talker, msgid, fields)
    bad = spec.frame(talker, msgid, fields, ck)
    a, b = parse(good, mode, validate), parse(bad, mode, validate)
    ctx.check(a[0] == b[0], "checksum consulted", lambda: f"{bad!r} validate={validate}: {a} {b}")
    if a[0] == "msg":
        expect_attrs(ctx, b[1], [[k, ("eq", v)] for k, v in vars(a[1]).items() if k[0] != "_" and v == v],
                     "validation off")
        ctx.check(b[1].checksum == ck, "checksum text altered", lambda: f"{bad!r}: {b[1].checksum!r}")
        ctx.count("validation_off")
        ctx.seen("off", ck, msgid)


def off(ctx):
    for _ in range(ctx.n(4000)):
        mode, talker, msgid, fields, _ = gen.sentence(ctx.rng)
        ck = ctx.rng.choice(("", "0", "00", "ZZ", "FF", "1234", "é", "-1", " ", "%02X" % ctx.rng.randrange(256)))
        ctx.case("off", mode=mode, talker=talker, msgid=msgid, fields=fields, ck=ck,
                 validate=ctx.rng.choice((0, 2)))


def case_helper(ctx, talker, msgid, fields):
    c = spec.content(talker, msgid, fields)
    want = spec.cks(c)
    ctx.check(calc_checksum(c.decode()) == want, "calc_checksum", lambda: f"{c!r} {calc_checksum(c.decode())}")
    got = generate_checksum(talker, msgid, fields)
    ctx.check(got == want, "generate_checksum", lambda: f"{c!r}: {got} not {want}")
    ctx.count("helper")
    ctx.seen("helper", want)


def helpers(ctx):
    for _ in range(ctx.n(8000)):
        _, talker, msgid, fields, _ = gen.sentence(ctx.rng, unknown=0.5)
        if ctx.rng.random() < 0.2:
            fields = fields + [gen.text(ctx.rng, "long") * ctx.rng.randint(1, 60)]
        ctx.case("helper", talker=talker, msgid=msgid, fields=fields)
    ctx.case("helper", talker="", msgid="", fields=[])
