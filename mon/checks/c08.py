"""C08 stream extraction: every valid sentence exactly once, in order, byte-exact."""

import io
import os
import re
import tempfile

from mon import gen, spec
from mon.core import show
from mon.lib import ERRS, ByteStream, parse, snap, reader

PROPERTY = "C08"
RULE = (
    "Streams composed of uniquely numbered valid sentences (all talkers, layouts, unknown ids, very "
    "long/short, CRLF or LF) interleaved with foreign frames, random bytes, stray '$', text, and "
    "corrupted complete lines; the recorded (raw, message) history is compared with the composition. "
    "Every byte value and every '$x' pair directly before a sentence; truncation at every point of the "
    "last sentence; growth at boundaries; several stream kinds, policies, read/iterate. Non-trivial: "
    "distinct (segment kind sequence, policy, stream kind)."
)
NEED = {"delivered": 20000, "noise_segments": 5000, "bad_lines": 2000, "truncations": 1000, "growths": 500,
        "prefixes": 500, "iterated": 300, "stray_dollar": 500, "long_streams": 4, "other_flags": 3000}
QUICK = 5


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k)
            for n in ("mixed", "mixed2", "mixed3", "grown", "prefixes", "truncated", "files", "long")]


class Tail(io.BytesIO):
    """Stream that hands out short reads at most one byte (read) or a line."""


def decodable(mode, talker, msgid, fields):
    try:
        _, exp, _ = spec.decode(mode, talker, msgid, fields)
    except spec.TypeErr:
        return False
    return not any(e[0] == "any" for _, e in exp)


class Uid:
    n = 0


def valid_sentence(rng, mode):
    """A valid sentence unique in its stream."""
    Uid.n += 1
    uid = f"u{Uid.n}"
    while True:
        k = rng.randrange(8)
        talker = rng.choice(gen.STDTALK)
        term = rng.choice((b"\r\n", b"\r\n", b"\r\n", b"\n"))
        if k < 3:
            return spec.frame(talker, "TXT" if mode == 0 else "ZZT", ["01", "01", "02", uid], None, term)
        if k == 3:
            f = [uid, rng.choice(("a$b", "$", "$GP", "$$", "$GNGGA,1", "!x", "x" * rng.choice((100, 5000, 20000)),
                                  "é日本", "\x00\x01", "=?", ""))]
            return spec.frame(rng.choice((talker, "P")), gen.unknown_id(rng), f, None, term)
        if k == 4:
            return spec.frame("P", "QZ" + uid, [], None, term)
        m, t, msgid, fields, ck = gen.sentence(rng, modes=(mode,), unknown=0.0)
        fields = fields + [uid]
        if decodable(mode, t, msgid, fields):
            return spec.frame(t, msgid, fields, None, term)


def bad_line(rng, mode):
    """A complete line introduced like a sentence that does not parse."""
    while True:
        raw = valid_sentence(rng, mode)
        k = rng.randrange(6)
        star = raw.rfind(b"*")
        if k == 0:
            if rng.random() < 0.2:  # something between the checksum and the line end
                return raw[:star + 3] + rng.choice((b" ", b"\t", b"0", b",", b"  ")) + b"\r\n"
            ck = b"%02X" % (int(raw[star + 1:star + 3], 16) ^ rng.randint(1, 255))
            return raw[:star + 1] + ck + raw[star + 3:]
        if k == 1:
            return raw[: rng.randint(3, star)] + b"\r\n"  # no checksum
        if k == 2:
            p = rng.randrange(3, star)
            x = rng.choice([y for y in range(32, 127) if y not in b"*$,"])
            if x != raw[p]:
                return raw[:p] + bytes([x]) + raw[p + 1:]
        if k == 3:
            return raw[:3] + b"\xff\xfe" + raw[3:]
        if k == 4:
            return raw[:2] + b"\n"
        if k == 5:
            return spec.frame("GN", "GGA", ["10:36", "1", "N", "2", "E", "x", "y", "z"]) if mode == 0 else raw[:4] + b"\r\n"


def compose(rng, mode, n, dup=0.0):
    """-> [(kind, bytes)] with kinds 'ok', 'bad', 'noise'."""
    segs = []
    for _ in range(n):
        k = rng.random()
        if k < dup and any(t == "ok" for t, _ in segs):  # the very same sentence again
            segs.append(rng.choice([x for x in segs[-3:] if x[0] == "ok"] or [x for x in segs if x[0] == "ok"]))
        elif k < 0.55:
            segs.append(("ok", valid_sentence(rng, mode)))
        elif k < 0.7:
            segs.append(("bad", bad_line(rng, mode)))
        else:
            x = gen.noise(rng)
            if segs and segs[-1][1][-1:] == b"$" and x[:1] in gen.HDRBYTES:
                x = b"1" + x
            segs.append(("noise", x))
    out = []
    for s in segs:  # '$' at the end of noise must not meet a header byte of more noise
        if out and out[-1][1][-1:] == b"$" and s[0] == "noise" and s[1][:1] in gen.HDRBYTES:
            s = ("noise", b" " + s[1])
        out.append(s)
    return out


def consume(reader, policy, limit, iterate, check):
    """Drain; under policy raise the caller catches and carries on."""
    out = []
    it = iter(reader)
    for _ in range(limit):
        try:
            if iterate:
                try:
                    out.append(next(it))
                except StopIteration:
                    return out, True
            else:
                raw, m = reader.read()
                if raw is None and m is None:
                    return out, True
                out.append((raw, m))
        except ERRS:
            check(policy == 2)
    return out, False


def config(rng, data):
    """Flags and definitions that make a difference to the messages in data."""
    ids = sorted({x.decode() for x in re.findall(rb"\$[A-Z]{2}([A-Za-z0-9]{3,9}),", data)} - spec.STD - spec.PROP)
    user = {i: {"a": rng.choice(("IN", "ST", "HX", "DE")), "b": "ST"} for i in ids if rng.random() < 0.7}
    return dict(validate=rng.choice((0, 1, 1, 2, 3)), nmeaonly=rng.random() < 0.25,
                userdefined=user if user and rng.random() < 0.6 else None)


def verify(ctx, segs, out, mode, validate, user=None):
    if validate == 1 and not user:
        want = [b for k, b in segs if k == "ok"]
    else:  # what direct parsing accepts with these flags and definitions
        want = [b for k, b in segs if k in ("ok", "bad") and parse(b, mode, validate, user)[0] == "msg"]
        ctx.count("other_flags", len(want))
    bad = [b for k, b in segs if k == "bad"]
    got = [raw for raw, m in out if m is not None]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.check(False, "delivered sentences differ from those in the stream",
                  lambda: f"{len(got)} delivered, {len(want)} in stream; at {i}: got {show(got[i:i + 1])} want "
                          f"{show(want[i:i + 1])}; context {show(segs, 1500)}")
    for raw, m in out:
        ctx.check(type(raw) is bytes, "raw data is not bytes", lambda: repr(type(raw)))
        if m is None:
            ctx.check(raw in bad, "unknown data returned", lambda: repr(raw))
            continue
        k, d = parse(raw, mode, validate, user)
        ctx.check(k == "msg" and snap(d) == snap(m), "parsed message differs from direct parsing",
                  lambda: f"{raw!r}: {m} / {d}")
    ctx.count("delivered", len(got))
    ctx.count("noise_segments", sum(1 for k, _ in segs if k == "noise"))
    ctx.count("bad_lines", len(bad))
    ctx.count("stray_dollar", sum(1 for k, b in segs if k == "noise" and b[-1:] == b"$"))


def case_stream(ctx, segs, mode, validate, policy, nmeaonly, kind, iterate, user=None):
    data = b"".join(b for _, b in segs)
    tmp = None
    closers = []
    if kind == "bytesio":
        st = io.BytesIO(data)
    elif kind == "buffered":
        st = io.BufferedReader(io.BytesIO(data), buffer_size=16)
    elif kind == "file":
        tmp = tempfile.TemporaryFile()
        tmp.write(data)
        tmp.seek(0)
        st = tmp
    elif kind == "pipe":
        rd, wr = os.pipe()
        os.write(wr, data[:60000])
        assert len(data) <= 60000
        os.close(wr)
        st = os.fdopen(rd, "rb", buffering=0) if iterate else os.fdopen(rd, "rb")
        closers.append(st)
    else:
        st = ByteStream(data)
    try:
        r = reader(st, msgmode=mode, validate=validate, quitonerror=policy, nmeaonly=nmeaonly,
                   errorhandler=lambda e: None, userdefined=user)
        out, ended = consume(r, policy, len(data) + 10, iterate, lambda c: ctx.check(c, "reader raised"))
        ctx.check(ended, "end of stream not reached", lambda: show(segs))
        verify(ctx, segs, out, mode, validate, user)
        ctx.check(r.read() == (None, None), "data after end of stream")
        if kind in ("bytesio", "bytes"):
            # reading and iterating are equivalent
            r2 = reader(io.BytesIO(data), msgmode=mode, validate=validate, quitonerror=policy,
                        nmeaonly=nmeaonly, errorhandler=lambda e: None, userdefined=user)
            out2, ended2 = consume(r2, policy, len(data) + 10, not iterate, lambda c: ctx.check(c, "reader raised"))
            ctx.check(ended2 and [a for a, _ in out2] == [a for a, _ in out], "iterating and reading differ",
                      lambda: show(segs))
            ctx.count("iterated")
    finally:
        if tmp:
            tmp.close()
        for c in closers:
            c.close()
    ctx.seen(tuple(k[0] for k, _ in segs), policy, kind, nmeaonly)
    ctx.sample(data)


def mixed(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(500)):
        mode = rng.choice((0, 0, 1, 2))
        segs = compose(rng, mode, rng.randint(1, 16), 0.1)
        conf = config(rng, b"".join(b for _, b in segs)) if rng.random() < 0.4 else {"validate": 1, "userdefined": None}
        ctx.case("stream", segs=segs, mode=mode, validate=conf["validate"], user=conf["userdefined"], policy=rng.randrange(3),
                 nmeaonly=rng.random() < 0.3, kind=rng.choice(("bytesio", "bytes")), iterate=rng.random() < 0.5)


mixed2 = mixed3 = mixed


def long(ctx):
    """Thousands of sentences, or kilobytes of foreign bytes, through one reader."""
    rng = ctx.rng
    for i in range(ctx.n(1)):
        segs = []
        if i % 2:
            for _ in range(rng.randint(3, 6)):
                n = rng.choice((4095, 4096, 8192, 20000, 66000))
                segs.append(("noise", bytes(rng.choice(b"\n\r,*!0A\xb5\xd3\x00\xff") for _ in range(n))))
                segs.append(("ok", valid_sentence(rng, 0)))
        else:
            segs = compose(rng, 0, rng.choice((1100, 2100, 2600)), 0.05)
            segs += [("ok", valid_sentence(rng, 0))] * rng.choice((0, 130, 300))
        ctx.count("long_streams")
        ctx.case("stream", segs=segs, mode=0, validate=1, policy=rng.randrange(3), nmeaonly=False,
                 kind=rng.choice(("bytesio", "bytes")), iterate=rng.random() < 0.5)


def files(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150)):
        segs = compose(rng, 0, rng.randint(1, 30), 0.1)
        if sum(len(b) for _, b in segs) > 50000:
            continue
        ctx.case("stream", segs=segs, mode=0, validate=1, policy=rng.randrange(3), nmeaonly=False,
                 kind=rng.choice(("file", "pipe", "buffered")), iterate=rng.random() < 0.5)


def prefixes(ctx):
    """Every byte, and every '$x', immediately before a valid sentence."""
    rng = ctx.rng
    for rep in range(max(1, ctx.n(1) // 3)):
        pre = [bytes([b]) for b in range(256)]
        pre += [b"$" + bytes([b]) for b in range(256) if bytes([b]) not in gen.HDRBYTES]
        pre += [b"$" * n for n in range(1, 9)] + [b"x" + b"$" * n for n in range(1, 5)]
        pre += [b"$$" + bytes([b]) for b in range(256) if bytes([b]) not in gen.HDRBYTES]
        for p in pre:
            segs = [("noise", p), ("ok", valid_sentence(rng, 0)), ("noise", p), ("ok", valid_sentence(rng, 0)),
                    ("ok", valid_sentence(rng, 0))]
            ctx.count("prefixes")
            ctx.case("stream", segs=segs, mode=0, validate=1, policy=rng.randrange(3), nmeaonly=rng.random() < 0.3,
                     kind="bytesio", iterate=False)


def case_truncated(ctx, segs, last, cut, mode, policy):
    data = b"".join(b for _, b in segs) + last[:cut]
    st = ByteStream(data)
    r = reader(st, msgmode=mode, quitonerror=policy, errorhandler=lambda e: None)
    out, ended = consume(r, policy, len(data) + 10, False, lambda c: ctx.check(c, "reader raised"))
    ctx.check(ended, "end of stream not reached", lambda: show(data))
    verify(ctx, segs + [("bad", last[:cut])], out, mode, 1)
    ctx.count("truncations")
    ctx.seen("cut", cut, len(last))


def truncated(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(12)):
        mode = rng.choice((0, 0, 1, 2))
        segs = compose(rng, mode, rng.randint(0, 3))
        last = valid_sentence(rng, mode)
        for cut in (range(1, len(last)) if len(last) < 200 else rng.sample(range(1, len(last)), 60)):
            ctx.case("truncated", segs=segs, last=last, cut=cut, mode=mode, policy=rng.randrange(3))


def case_grown(ctx, parts, mode, policy, iterate):
    """The stream ends after each part; later parts arrive afterwards."""
    st = ByteStream()
    r = reader(st, msgmode=mode, quitonerror=policy, errorhandler=lambda e: None)
    out = []
    for p in parts:
        st.feed(b"".join(b for _, b in p))
        o, ended = consume(r, policy, sum(len(b) for _, b in p) + 10, iterate,
                           lambda c: ctx.check(c, "reader raised"))
        ctx.check(ended, "end of stream not reached")
        out += o
        ctx.count("growths")
    verify(ctx, [s for p in parts for s in p], out, mode, 1)
    ctx.seen("grown", [len(p) for p in parts])


def grown(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(250)):
        mode = rng.choice((0, 1, 2))
        segs = compose(rng, mode, rng.randint(2, 12), 0.1)
        parts, cur = [], []
        for s in segs:
            cur.append(s)
            if rng.random() < 0.5 and s[1][-1:] != b"$":
                parts.append(cur)
                cur = []
                if rng.random() < 0.2:
                    parts.append([])
        parts.append(cur)
        ctx.case("grown", parts=parts, mode=mode, policy=rng.randrange(3), iterate=rng.random() < 0.5)
