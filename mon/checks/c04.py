"""C04 lossless round trip."""

import random

from mon import gen, spec
from mon.checks.c02 import REAL, hostile, rand_def, user_of
from mon.lib import NMEAMessage, make, parse, snap, stream_of, reader

PROPERTY = "C04"
RULE = (
    "Sentences of every layout (random, awkward and surplus/missing fields, lower-case and - with "
    "validation off - wrong checksum texts), unknown ids, user definitions, real logs and generated "
    "messages: serialize, payload, re-parse and eval(repr) compared with the sentence's own text. "
    "Non-trivial: distinct (layout or id, mode, field count, checksum form)."
)
NEED = {"serialized": 5000, "reparsed": 5000, "evaluated": 5000, "generated": 1000, "layouts_seen": 600,
        "wrong_checksum": 100, "wide": 200, "long": 250}
QUICK = 12


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k)
            for n in ("layouts", "mixed", "mixed2", "real", "userdefs", "generated", "hostiles", "long")]


def case_trip(ctx, talker, msgid, fields, ck, mode, validate, user=None, term=b"\r\n", via="parse"):
    user = user_of(user) if user is not None else None
    c = spec.content(talker, msgid, fields)
    ck = spec.cks(c) if ck is None else ck
    raw = spec.frame(talker, msgid, fields, ck, term)
    if via == "str":
        k, m = parse(raw.decode("utf-8"), mode, validate, user)
    elif via == "stream":
        got = reader(stream_of(raw), msgmode=mode, validate=validate, userdefined=user, quitonerror=0).read()
        k, m = ("msg", got[1]) if got[1] is not None else ("none", None)
        if k == "msg":
            ctx.check(got[0] == raw, "raw bytes altered", lambda: f"{raw!r} -> {got[0]!r}")
    else:
        k, m = parse(raw, mode, validate, user)
    if k != "msg":
        ctx.count("not_parsed")
        return
    out = b"$" + c + b"*" + ck.encode("utf-8") + b"\r\n"
    ctx.check(m.payload == fields and all(type(x) is str for x in m.payload), "payload",
              lambda: f"{raw!r}: {m.payload}")
    s = m.serialize()
    ctx.check(type(s) is bytes and s == out, "serialization", lambda: f"{raw!r} -> {s!r}")
    ctx.count("serialized")
    k2, m2 = parse(s, mode, validate, user)
    ctx.check(k2 == "msg", "re-parse", lambda: f"{s!r}: {k2} {m2}")
    a, b = snap(m), snap(m2)
    ctx.check(a == b, "re-parse differs", lambda: f"{raw!r}: {a} / {b}")
    ctx.count("reparsed")
    evaluate(ctx, m, raw, ck.upper() == ck and ck == spec.cks(c))
    if ck != spec.cks(c) and ck.upper() != spec.cks(c):
        ctx.count("wrong_checksum")
    if not c.isascii():
        ctx.count("wide")
    ctx.seen(msgid, fields[0][:4] if msgid in spec.PREFIX and fields else "", mode, len(fields), ck.islower())
    ctx.sample(raw)


def evaluate(ctx, m, what, full):
    r = repr(m)
    try:
        e = eval(r, {"NMEAMessage": NMEAMessage})  # noqa
    except Exception as err:  # noqa
        ctx.check(False, "repr does not evaluate", lambda: f"{what!r}: {r}: {err!r}")
    ctx.check((e.talker, e.msgID, e.msgmode, e.payload) == (m.talker, m.msgID, m.msgmode, m.payload),
              "eval(repr) differs", lambda: f"{what!r}: {r} -> {e!r}")
    if full:
        ctx.check(e.serialize() == m.serialize(), "eval(repr) serializes differently",
                  lambda: f"{what!r}: {e.serialize()!r}")
    ctx.count("evaluated")


def run(ctx, mode, talker, msgid, fields, user=None):
    rng = ctx.rng
    ck, validate = None, rng.choice((0, 1, 1, 1, 2, 3))
    c = spec.content(talker, msgid, fields)
    x = rng.random()
    if x < 0.15:
        ck = spec.cks(c).lower()
    elif x < 0.25:
        validate = 0
        ck = rng.choice(("00", "FF", "zz", "", "a1", "123", "é"))
    ctx.case("trip", talker=talker, msgid=msgid, fields=fields, ck=ck, mode=mode, validate=validate, user=user,
             term=rng.choice((b"\r\n", b"\r\n", b"\n")), via=rng.choice(("parse", "parse", "str", "stream")))


def layouts(ctx):
    seen = set()
    for i in range(ctx.n(3000)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        seen.add((mode, key))
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        fields = gen.fields_for(ctx.rng, mode, key)
        k = ctx.rng.randrange(6)
        if k == 0:
            fields = fields[: ctx.rng.randint(0, len(fields))]
        elif k == 1:
            fields = fields + [gen.text(ctx.rng) for _ in range(ctx.rng.randint(1, 4))]
        run(ctx, mode, talker, msgid, fields)
    ctx.count("layouts_seen", len(seen))


def mixed(ctx):
    for _ in range(ctx.n(4000)):
        mode, talker, msgid, fields, _ = gen.sentence(ctx.rng, bad=0.1, unknown=0.35)
        run(ctx, ctx.rng.choice((mode, mode, ctx.rng.randrange(3))), talker, msgid, fields)


mixed2 = mixed


def hostiles(ctx):
    for _ in range(ctx.n(3000)):
        mode, talker, msgid, fields, _ = gen.sentence(ctx.rng, unknown=0.4)
        fields = [(hostile(ctx.rng).replace("\n", "").replace("\r", "").replace(",", "")
                   if ctx.rng.random() < 0.3 else f) for f in fields]
        run(ctx, mode, talker, msgid, [f.replace("*", "") for f in fields])


def real(ctx):
    for raw in REAL:
        body, ck = raw.strip(b"\r\n$").decode().split("*")
        hdr, *fields = body.split(",")
        s = 1 if hdr[0] == "P" else 2
        for mode in (0, 1, 2):
            for via in ("parse", "stream"):
                ctx.case("trip", talker=hdr[:s], msgid=hdr[s:], fields=fields, ck=ck, mode=mode, validate=1, via=via)


def userdefs(ctx):
    for _ in range(ctx.n(2500)):
        msgid = gen.unknown_id(ctx.rng)
        d = rand_def(ctx.rng)
        fields = [ctx.rng.choice(("1", "2", "", "0101.5", "W", "010203", gen.text(ctx.rng)))
                  for _ in range(ctx.rng.randint(0, 12))]
        run(ctx, ctx.rng.randrange(3), ctx.rng.choice(("GN", "P")), msgid, fields, [[msgid, d]])


def case_generated(ctx, mode, key, kw, hp, validate=1):
    _, msgid, first = spec.base_id(mode, key)
    talker = spec.base_id(mode, key)[0] or "GN"
    k, m = make(talker, msgid, mode, hpnmeamode=hp, validate=validate, **kw)
    if k != "msg":
        ctx.count("not_generated")
        return
    s = m.serialize()
    evaluate(ctx, m, s, True)
    k2, m2 = parse(s, mode)
    if k2 == "msg":
        ctx.check(m2.payload == m.payload and m2.serialize() == s, "generated message does not round trip",
                  lambda: f"{s!r} -> {m2.serialize()!r}")
        evaluate(ctx, m2, s, True)
    ctx.count("generated")
    ctx.seen("gen", key, mode, len(m.payload))


def generated(ctx):
    for i in range(ctx.n(3000)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        ctx.case("generated", mode=mode, key=key, kw=gen.kwargs_for(ctx.rng, mode, key), hp=ctx.rng.random() < 0.3,
                 validate=ctx.rng.randrange(4))


def case_long(ctx, mode, key, talker, msgid, n, size, via, seed):
    """A sentence of hundreds of fields, or with a field of thousands of characters."""
    rng = random.Random(seed)
    fields = gen.fields_for(rng, mode, key) if key else []
    fields += [gen.text(rng) for _ in range(n)]
    if size:
        fields += [gen.text(rng, "plain", 5) * size, "".join(chr(rng.randrange(0x2D, 0x7F)) for _ in range(size))]
    run_long = dict(talker=talker, msgid=msgid, fields=fields, ck=None, mode=mode, validate=1, via=via)
    case_trip(ctx, **run_long)
    k, m = make(talker, msgid, mode, payload=list(fields))
    if k == "msg":
        s = m.serialize()
        ctx.check(s == spec.frame(talker, msgid, fields), "serialization", lambda: f"{s[:200]!r}")
        evaluate(ctx, m, s[:200], True)
    ctx.count("long")


def long(ctx):
    rng = ctx.rng
    for i in range(ctx.n(40)):
        mode, key = gen.LAYOUTS[rng.randrange(len(gen.LAYOUTS))]
        if i % 3:
            talker, msgid = gen.talker_for(rng, mode, key)
        else:
            key, talker, msgid = None, rng.choice(("GN", "P")), gen.unknown_id(rng)
        n = rng.choice((0, 20, 99, 100, 101, rng.randint(30, 400), rng.randint(400, 1500)))
        ctx.case("long", mode=mode, key=key, talker=talker, msgid=msgid, n=n,
                 size=0 if n and rng.random() < 0.6 else rng.choice((80, 255, 1000, 4000, rng.randint(100, 20000))),
                 via=rng.choice(("parse", "str", "stream")), seed=rng.randrange(10**9))
