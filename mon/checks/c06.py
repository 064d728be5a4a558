"""C06 generation: built messages are well-formed and parse back to their inputs."""

import datetime as dtm
import re
from fractions import Fraction

from mon import gen, spec
from mon.core import set_zone, show
from mon.lib import attrs, make, parse, same

PROPERTY = "C06"
RULE = (
    "Messages of every catalogued layout and mode built from random subsets of their attributes "
    "(boundary positions, times, dates, numbers, texts; both precisions), and from payload lists "
    "(with and without definition), numbers also as text: frame, checksum, every field's text against the reference "
    "conversion, nominal values, and the parsed-back values. Non-trivial: distinct (layout, mode, "
    "set of given attributes, precision)."
)
NEED = {"built": 5000, "fields": 40000, "nominal_fields": 5000, "given_fields": 10000, "parsed_back": 5000,
        "payload_route": 2000, "undefined": 200, "layouts_seen": 630, "now_fields": 100, "number_text": 4000, "text_number": 800}
QUICK = 15
FRAME = re.compile(rb"\$([^*\r\n]*)\*([0-9A-F]{2})\r\n\Z")


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("layouts", "layouts2", "layouts3", "payloads", "undefined", "single", "overridden", "numtext")]


def unframe(ctx, s, what):
    m = FRAME.match(s)
    ctx.check(m, "not a single frame", lambda: f"{what}: {s!r}")
    ctx.check(spec.cks(m[1]).encode() == m[2], "wrong checksum", lambda: f"{what}: {s!r}")
    return m[1].decode("utf-8").split(",")


def utc():
    return dtm.datetime.now(dtm.timezone.utc)


def res(typ, hp):
    return Fraction(1, 60 * 10 ** (7 if hp else 5)) * Fraction(51, 100) + Fraction(1, 10**10)


def back_ok(given, typ, got, hp):
    """Is the parsed-back value the given one, to the stated resolution?"""
    if typ in ("LA", "LN"):
        return type(got) is float and abs(Fraction(got) - abs(Fraction(given))) <= res(typ, hp)
    if typ == "TM":
        if isinstance(given, str):
            g = given.replace(":", "")
            given = dtm.time(int(g[:2]), int(g[2:4]), int(g[4:6]), int(g[7:].ljust(6, "0")))
            return type(got) is dtm.time and got == given
        return type(got) is dtm.time and got == given.replace(microsecond=given.microsecond // 10000 * 10000)
    if typ in ("DT", "DM", "DTL"):
        if isinstance(given, str):
            g = given.replace("-", "")
            given = dtm.date(int(g[:4]), int(g[4:6]), int(g[6:8]))
        return type(got) is dtm.date and got == given
    if typ == "DE":
        return type(got) is float and got == float(given)
    return type(got) is type(given) and got == given


def case_build(ctx, mode, key, kw, hp, talker, validate=1):
    _, msgid, _ = spec.base_id(mode, key)
    real = spec.key_for_kwargs(mode, msgid, kw)
    if real is None:
        ctx.count("no_layout")
        return
    what = f"{talker}{msgid} mode {mode} hp={hp} {show(kw, 500)}"
    given = dict(kw)
    t0 = utc()
    k, m = make(talker, msgid, mode, hpnmeamode=hp, validate=validate, **kw)
    t1 = utc()
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m}")
    ctx.check(kw == given, "keyword values altered", lambda: what)
    s = m.serialize()
    hdr, *fields = unframe(ctx, s, what)
    ctx.check(hdr == talker + msgid, "header", lambda: f"{what}: {s!r}")
    ctx.check(m.payload == fields, "payload differs from serialization", lambda: f"{what}: {s!r}")
    exp = spec.build(mode, real, kw, hp)
    ctx.check(len(exp) == len(fields), "number of fields", lambda: f"{what}: {s!r}: expected {len(exp)}")
    for (name, typ, e), text in zip(exp, fields):
        ctx.check(spec.text_agrees(e, text, t0, t1), "field text",
                  lambda: f"{what}: {name} ({typ}): expected {show(e)} got {text!r}")
        ctx.count("fields")
        ctx.count("given_fields" if name in kw else "nominal_fields")
        if e[0] in ("nowtime", "nowdate"):
            ctx.count("now_fields")
    a = attrs(m)
    ctx.check(list(a) == [n for n, _, _ in exp], "attribute names", lambda: f"{what}: {list(a)}")
    for n, typ, e in exp:
        if n in kw and typ not in ("LAD", "LND"):
            ctx.check(same(a[n], kw[n]), "attribute value", lambda: f"{what}: {n}={a[n]!r}")
    ctx.count("built")
    ctx.seen(real, mode, hp, tuple(sorted(kw))[:40])
    ctx.sample(s)
    # and back
    src, pkey = spec.key_for_fields(mode, msgid, fields)
    if pkey != real:
        ctx.count("ambiguous_layout")
        return
    k2, p = parse(s, mode)
    ctx.check(k2 == "msg", "does not parse back", lambda: f"{what}: {s!r}: {k2} {p}")
    b = attrs(p)
    ctx.check(list(b) == list(a), "parsed-back attribute names", lambda: f"{what}: {list(b)} from {s!r}")
    lastpos = {}
    for (n, typ, e), text in zip(exp, fields):
        if typ in ("LA", "LN"):
            lastpos[typ + "D"] = n
        if n in kw and typ not in ("LAD", "LND"):
            v = b[n]
            if typ in ("LA", "LN"):
                # magnitude here; the sign must be that of the value when a N/S, E/W follows
                governed = any(t2 == typ + "D" for _, t2, _ in exp)
                if governed and kw[n] < 0 and isinstance(v, float) and _governed(exp, n, typ):
                    ctx.check(v < 0 or abs(kw[n]) < 2e-7, "sign lost", lambda: f"{what}: {n}: {s!r} -> {v!r}")
                v = abs(v) if isinstance(v, float) else v
                given_v = abs(kw[n])
            else:
                given_v = kw[n]
            ctx.check(back_ok(given_v, typ, v, hp), "parsed-back value",
                      lambda: f"{what}: {n} ({typ}): {s!r} -> {b[n]!r}")
        elif n not in kw and e[0] == "eq":
            ctx.check(isinstance(b[n], (str, int, float)), "parsed-back nominal", lambda: f"{what}: {n} {b[n]!r}")
    ctx.check(p.payload == fields and p.identity == m.identity, "parsed-back message",
              lambda: f"{what}: {p!r} {p.identity} {m.identity}")
    ctx.count("parsed_back")


def _governed(exp, name, typ):
    """Is this position the last one before a direction field of its kind?"""
    cur = None
    for n, t, _ in exp:
        if t == typ:
            cur = n
        elif t == typ + "D" and cur == name:
            return True
    return False


def layouts(ctx):
    seen = set()
    if ctx.job.startswith("layouts2"):
        set_zone("other")
    for i in range(ctx.n(2600)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        seen.add((mode, key))
        talker = gen.talker_for(ctx.rng, mode, key)[0]
        ctx.case("build", mode=mode, key=key, kw=gen.kwargs_for(ctx.rng, mode, key), hp=ctx.rng.random() < 0.4,
                 talker=talker, validate=ctx.rng.choice((0, 1, 2, 3)))
    if ctx.job == "layouts#0":
        ctx.count("layouts_seen", len(seen))


layouts2 = layouts3 = layouts


def single(ctx):
    """One attribute given at a time (plus what selects the layout)."""
    set_zone("other")
    for i in range(ctx.n(1500)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker = gen.talker_for(ctx.rng, mode, key)[0]
        kw = gen.kwargs_for(ctx.rng, mode, key, p=0.0, reps=ctx.rng.choice((0, 1, 2)))
        names = [(n, t) for n, t in spec.DEFS[mode][key] if not isinstance(t, dict)]
        if names:
            n, t = ctx.rng.choice(names)
            if n not in kw:
                kw[n] = gen.typed(ctx.rng, t)
        gen.steer(ctx.rng, mode, key, kw)
        ctx.case("build", mode=mode, key=key, kw=kw, hp=ctx.rng.random() < 0.4, talker=talker)


TEXTNUM = (0, 1, 7, 10, 12, 15, 16, 99, 255, 4095, 65535, 10**12, -1, 2.5, True)
NUMTEXT = {"IN": ("0", "00", "007", "12", "-5", "", "123456789012345678901", "+3"),
           "DE": ("0", "0.50", "007.10", "-1.250", "", "5.", ".5", "12345678901234567890.5", "+0.1")}


def case_numtext(ctx, mode, key, kw, texts, talker, validate=1):
    """Numbers given as text go into the sentence as they are, text fields given numbers as these are written."""
    _, msgid, _ = spec.base_id(mode, key)
    real = spec.key_for_kwargs(mode, msgid, kw)
    if real is None:
        return
    exp = spec.build(mode, real, kw, False)
    k, m = make(talker, msgid, mode, validate=validate, **{**kw, **texts})
    what = f"{talker}{msgid} mode {mode} {show(texts, 300)} {show(kw, 300)}"
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m}")
    hdr, *fields = unframe(ctx, m.serialize(), what)
    ctx.check(len(exp) == len(fields), "number of fields", lambda: f"{what}: {m!r}: expected {len(exp)}")
    for (name, typ, _), text in zip(exp, fields):
        if name in texts:
            ctx.check(text == str(texts[name]), "field text", lambda: f"{what}: {name} ({typ}): got {text!r}")
            ctx.check(same(getattr(m, name, None), texts[name]), "attribute value", lambda: f"{what}: {name}")
            ctx.count("number_text" if typ in NUMTEXT else "text_number")
            ctx.seen("numtext", real, mode, name, text)


def numtext(ctx):
    rng = ctx.rng
    for i in range(ctx.n(400)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        kw = gen.kwargs_for(rng, mode, key)
        counts = {d["n"] for _, d in spec.DEFS[mode][key] if isinstance(d, dict)}
        types = [(n, t) for n, t in spec.DEFS[mode][key] if not isinstance(t, dict)]
        texts = {n: rng.choice(NUMTEXT[t]) for n, t in types
                 if t in NUMTEXT and n in kw and n not in counts and n not in SELECT and rng.random() < 0.6}
        texts.update((n, rng.choice(TEXTNUM)) for n, t in types
                     if t in ("HX", "ST", "CH") and n in kw and n not in SELECT and rng.random() < 0.4)
        if texts:
            ctx.case("numtext", mode=mode, key=key, kw=kw, texts=texts, talker=gen.talker_for(rng, mode, key)[0],
                     validate=rng.randrange(4))


def case_payload(ctx, talker, msgid, fields, mode, extra, validate, hp=False):
    what = f"{talker}{msgid} mode {mode} payload={fields!r}"
    mine = list(fields)
    k, m = make(talker, msgid, mode, payload=mine, validate=validate, hpnmeamode=hp, **extra)
    try:
        _, exp, _ = spec.decode(mode, talker, msgid, fields)
    except spec.TypeErr:
        ctx.check(k == "err", "field that cannot be converted accepted", lambda: f"{what}: {m}")
        return
    if k != "msg" and any(e[0] == "any" for _, e in exp):
        return
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m}")
    ctx.check(m.payload == fields and mine == fields, "payload not verbatim", lambda: f"{what}: {m.payload}")
    ctx.check(m.serialize() == spec.frame(talker, msgid, fields), "serialization", lambda: f"{what}: {m.serialize()!r}")
    for n, e in exp:
        ctx.check(spec.agrees(e, getattr(m, n, None)), "attribute value", lambda: f"{what}: {n}={getattr(m, n, None)!r}")
    ctx.check(len(attrs(m)) == len(exp), "attribute names", lambda: f"{what}: {list(attrs(m))}")
    ctx.count("payload_route")
    ctx.seen("payload", msgid, mode, len(fields))


SELECT = {"baudrate": (115200, 9600, ""), "portid": (1, ""), "databit": (8,), "porttype": (1,), "msgver": (1, 2, ""), "lon1": (1.5, ""), "geofencemode": (0, 1, 2),
          "enable": (0, 1, "1"), "maskhigh": (0, "FF"), "msgType": ("GGA", "A", ""), "msgtype": ("GGA", "D"),
          "msgId": ("00", "40", "GGK", "RDID"), "index": (0, 1), "status": ("OK", "R", "W"), "id": (1,),
          "systemid": (1,), "signalid": (1,), "cfgfunc": (0, 1, 2), "nodatainterval": (0, 1),
          "mode": (0, 1), "key": ("GGA", 1), "att": ("ST",), "pindex": (0,)}


def overridden(ctx):
    """A payload with keywords which would have chosen another variant."""
    rng = ctx.rng
    keys = [(m, k) for m, k in gen.LAYOUTS if k.startswith(("QTM", "STMDRSENMSG", "ASHR", "UBX", "TNL"))]
    for i in range(ctx.n(1200)):
        mode, key = keys[i % len(keys)]
        talker, msgid = gen.talker_for(rng, mode, key)
        p = rng.choice((0.2, 0.5, 0.9))
        ctx.case("payload", talker=talker, msgid=msgid, fields=gen.fields_for(rng, mode, key), mode=mode, validate=1,
                 extra={k: rng.choice(v) for k, v in SELECT.items() if rng.random() < p})


def payloads(ctx):
    for i in range(ctx.n(2600)):
        if i % 4 == 0:
            talker, msgid = ctx.rng.choice(gen.STDTALK + ["P"]), gen.unknown_id(ctx.rng)
            mode = ctx.rng.randrange(3)
            fields = [gen.text(ctx.rng) for _ in range(ctx.rng.randint(0, 9))]
        else:
            mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
            talker, msgid = gen.talker_for(ctx.rng, mode, key)
            fields = gen.fields_for(ctx.rng, mode, key)
        extra = {}
        if ctx.rng.random() < 0.3:
            extra = {"lat": 12.5, "NS": "S", "svid_03": 4}
        if ctx.rng.random() < 0.3:  # keywords which choose the layout when there is no payload
            extra = {k: ctx.rng.choice(v) for k, v in SELECT.items() if ctx.rng.random() < 0.5}
        ctx.case("payload", talker=talker, msgid=msgid, fields=fields, mode=mode, extra=extra,
                 validate=ctx.rng.choice((0, 1)), hp=ctx.rng.random() < 0.3)


def case_undefined(ctx, talker, msgid, mode, kw):
    k, m = make(talker, msgid, mode, **kw)
    ctx.check(k == "msg", "not built", lambda: f"{talker}{msgid}: {m}")
    hdr, *fields = unframe(ctx, m.serialize(), f"{talker}{msgid}")
    ctx.check(hdr == talker + msgid and not fields, "undefined message", lambda: f"{m.serialize()!r}")
    ctx.check(not attrs(m), "attributes invented", lambda: f"{attrs(m)}")
    ctx.count("undefined")
    ctx.seen("undef", msgid, mode, len(kw))


def undefined(ctx):
    for _ in range(ctx.n(300)):
        kw = {} if ctx.rng.random() < 0.5 else {"a": 1, "lat": 3.4}
        ctx.case("undefined", talker=ctx.rng.choice(gen.STDTALK + ["P", "XX"]), msgid=gen.unknown_id(ctx.rng),
                 mode=ctx.rng.randrange(3), kw=kw)
    for mode in (0, 1, 2):
        for msgid in sorted(spec.STD):
            if msgid not in spec.DEFS[mode]:
                ctx.case("undefined", talker="GN", msgid=msgid, mode=mode, kw={"lat": 1.0})
