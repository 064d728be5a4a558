"""C07 hemisphere and sign always agree, parsing and generating."""

import re
from decimal import Decimal
from fractions import Fraction

from mon import gen, spec
from mon.lib import make, parse, stream_of, reader

PROPERTY = "C07"
RULE = (
    "Every layout with a latitude/longitude governed by a N/S, E/W field (and grouped user "
    "definitions): all hemisphere combinations of boundary and random positions parsed, and built "
    "from signed coordinates with right, wrong and no direction given, both precisions, and parsed "
    "back; dense sweep of values around whole degrees and minutes, poles, equator, antimeridian. "
    "Non-trivial: distinct (layout, precision, hemispheres, position text)."
)
NEED = {"parsed_pairs": 20000, "negative": 5000, "positive": 5000, "generated_pairs": 20000, "wrong_given": 2000,
        "layouts_seen": 38, "boundary": 5000, "user_groups": 300, "decimal": 200}
QUICK = 8


def pairs(defn):
    """[(position name, type, direction name)] for governed positions of a flat layout."""
    out, last = [], {}
    for n, t in defn:
        if t in ("LA", "LN"):
            last[t + "D"] = (n, t)
        elif t in ("LAD", "LND") and t in last:
            out.append(last.pop(t) + (n,))
    return out


POSLAY = [(m, k) for m, k in gen.LAYOUTS if pairs([x for x in spec.DEFS[m][k] if not isinstance(x[1], dict)])]


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("parsing", "parsing2", "generating", "generating2",
                                                   "sweep", "usergroups", "blanks")]


def case_parse(ctx, mode, key, talker, msgid, fields, via, validate=1):
    raw = spec.frame(talker, msgid, fields)
    if via:
        r = reader(stream_of(raw), msgmode=mode, quitonerror=0, validate=validate).read()
        k, m = ("msg", r[1]) if r[1] else ("none", None)
    else:
        k, m = parse(raw, mode, validate)
    ctx.check(k == "msg", "not parsed", lambda: f"{raw!r}: {m}")
    lay = spec.walk(spec.DEFS[mode][key], fields)
    texts = {n: x for n, _, x in lay}
    for pos, typ, dirn in pairs([(n, t) for n, t, _ in lay]):
        judge(ctx, raw, m, texts, pos, typ, dirn)
    ctx.sample(raw)


def judge(ctx, raw, m, texts, pos, typ, dirn):
    v, d = getattr(m, pos, None), getattr(m, dirn, None)
    ctx.check(d == texts[dirn], "direction field", lambda: f"{raw!r}: {dirn}={d!r}")
    exp = spec.value(texts[pos], typ)
    if exp == ("eq", ""):
        ctx.check(v == "", "blank position", lambda: f"{raw!r}: {pos}={v!r}")
        return
    ctx.check(type(v) is float, "position is not a number", lambda: f"{raw!r}: {pos}={v!r}")
    neg = texts[dirn] == ("S" if typ == "LA" else "W")
    mag = exp[1]
    ctx.check(abs(abs(Fraction(v)) - mag) <= Fraction(1, 10**10), "magnitude",
              lambda: f"{raw!r}: {pos}={v!r} expected {float(mag)}")
    if mag > Fraction(1, 10**9):
        ctx.check((v < 0) == neg, "sign", lambda: f"{raw!r}: {pos}={v!r} with {dirn}={d}")
        ctx.count("negative" if neg else "positive")
    ctx.count("parsed_pairs")
    ctx.seen("p", m.identity, texts[pos], texts[dirn])


def fields_of(rng, mode, key, boundary):
    fields = gen.fields_for(rng, mode, key)
    lay = spec.walk(spec.DEFS[mode][key], fields)
    for j, (n, t, x) in enumerate(lay):
        if t in ("LA", "LN"):
            fields[j] = btext(rng, t) if boundary else gen.pos_text(rng, t)
        elif t == "LAD":
            fields[j] = rng.choice("NS")
        elif t == "LND":
            fields[j] = rng.choice("EW")
    return fields


def btext(rng, typ):
    top = 90 if typ == "LA" else 180
    d = rng.choice((0, 0, 1, 9, 10, top // 2, top - 1, top))
    m = rng.choice(("00.00000", "00.00001", "59.99999", "00.0000001", "59.9999999", "00.0", "30.0", "01.0", "10.00000",
                    "09.99999", "29.99999"))
    if d == top:
        m = "00.00000"
    return f"{d:0{2 if typ == 'LA' else 3}d}{m}"


def parsing(ctx):
    seen = set()
    for i in range(ctx.n(1500)):
        mode, key = POSLAY[i % len(POSLAY)]
        seen.add((mode, key))
        b = ctx.rng.random() < 0.5
        if b:
            ctx.count("boundary")
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        ctx.case("parse", mode=mode, key=key, talker=talker, msgid=msgid,
                 fields=fields_of(ctx.rng, mode, key, b), via=ctx.rng.random() < 0.2, validate=ctx.rng.randrange(4))
    if ctx.job == "parsing#0":
        ctx.count("layouts_seen", len(seen))


parsing2 = parsing


def case_generate(ctx, mode, key, talker, kw, hp, validate=1):
    _, msgid, _ = spec.base_id(mode, key)
    if spec.key_for_kwargs(mode, msgid, kw) != key:
        return
    k, m = make(talker, msgid, mode, hpnmeamode=hp, validate=validate, **kw)
    ctx.check(k == "msg", "not built", lambda: f"{key} {kw}: {m}")
    s = m.serialize()
    names = [n for n, _, _ in spec.build(mode, key, kw, hp)]
    text = dict(zip(names, s[1:-5].decode().split(",")[1:]))
    k2, p = parse(s, mode)
    ctx.check(k2 == "msg", "not parsed", lambda: f"{s!r}: {p}")
    flat = [(n, t) for n, t in spec.flat(spec.DEFS[mode][key])]
    for pos, typ, dirn in pairs([(n, t) for n, t in flat if n in text]):
        if pos not in kw:
            continue
        v = kw[pos]
        neg = "S" if typ == "LA" else "W"
        want = neg if v < 0 else ("N" if typ == "LA" else "E")
        ctx.check(text[dirn] == want, "direction does not follow sign",
                  lambda: f"{kw}: {s!r}: {dirn}={text[dirn]} for {v!r}")
        ctx.check(getattr(m, dirn, None) == want, "direction attribute does not follow sign",
                  lambda: f"{kw}: {dirn}={getattr(m, dirn, None)}")
        if kw.get(dirn, want) != want:
            ctx.count("wrong_given")
        bad = spec.pos_text_ok(text[pos], v, typ, hp)
        ctx.check(bad is None, f"position digits: {bad}", lambda: f"{kw}: {s!r}: {pos}={text[pos]} for {v!r}")
        g = getattr(p, pos, None)
        tol = Fraction(51, 100 * 60 * 10 ** (7 if hp else 5)) + Fraction(1, 10**10)
        ctx.check(type(g) is float and abs(Fraction(g) - Fraction(v)) <= tol, "parse(generate(x)) is not x",
                  lambda: f"{v!r} -> {s!r} -> {g!r}")
        ctx.count("generated_pairs")
        ctx.seen("g", key, hp, text[pos], want)


def kwpos(rng, mode, key):
    kw = gen.kwargs_for(rng, mode, key, p=rng.choice((0.0, 1.0)))
    for n, t in spec.flat(spec.DEFS[mode][key]):
        if t in ("LA", "LN"):
            if rng.random() < 0.95:
                kw[n] = gen.coord(rng, t)
                form = rng.random()
                kw[n] = int(kw[n]) if form < 0.1 else Decimal(repr(kw[n])) if form < 0.2 else kw[n]
            else:
                kw.pop(n, None)
        elif t in ("LAD", "LND"):
            if rng.random() < 0.5:
                kw[n] = rng.choice("NS" if t == "LAD" else "EW")
            else:
                kw.pop(n, None)
    return kw


def generating(ctx):
    for i in range(ctx.n(1500)):
        mode, key = POSLAY[i % len(POSLAY)]
        ctx.case("generate", mode=mode, key=key, talker=gen.talker_for(ctx.rng, mode, key)[0],
                 kw=kwpos(ctx.rng, mode, key), hp=ctx.rng.random() < 0.5, validate=ctx.rng.randrange(4))


generating2 = generating


def sweep(ctx):
    """Dense values either side of whole degrees and minutes."""
    rng = ctx.rng
    for i in range(ctx.n(1800)):
        la = rng.randint(0, 90) + rng.choice((0, 0, 1 / 60, 0.5, 59 / 60))
        lo = rng.randint(0, 180) + rng.choice((0, 0, 1 / 60, 0.5, 59 / 60))
        e1 = rng.choice((0, 1, -1)) * 10.0 ** -rng.randint(3, 15)
        e2 = rng.choice((0, 1, -1)) * 10.0 ** -rng.randint(3, 15)
        lat = min(90.0, max(0.0, la + e1)) * rng.choice((1, -1))
        lon = min(180.0, max(0.0, lo + e2)) * rng.choice((1, -1))
        ctx.count("boundary")
        ctx.case("generate", mode=0, key=rng.choice(("GLL", "GGA", "RMC", "UBX00")),
                 talker="GN", kw={"lat": lat, "lon": lon, "msgId": "00"}, hp=rng.random() < 0.5)


def case_user(ctx, defn, msgid, fields, mode):
    """Positions inside (repeating) groups of a user definition."""
    d = spec.to_user(defn)
    k, m = parse(spec.frame("GN", msgid, fields), mode, 1, {msgid: d})
    ctx.check(k == "msg", "not parsed", lambda: f"{fields}: {m}")
    lay = spec.walk(defn, fields)
    texts = {n: x for n, _, x in lay}
    for pos, typ, dirn in pairs([(n, t) for n, t, _ in lay]):
        judge(ctx, fields, m, texts, pos, typ, dirn)
        ctx.count("user_groups")


def case_decimal(ctx, defn, msgid, fields, mode):
    """A user definition whose lat/lon are plain decimal degrees, governed by direction fields."""
    k, m = parse(spec.frame("GN", msgid, fields), mode, 1, {msgid: spec.to_user(defn)})
    ctx.check(k == "msg", "not parsed", lambda: f"{fields}: {m}")
    vals = {n: x for (n, _), x in zip(defn, fields)}
    for pos, dirn, neg in (("lat", "NS", "S"), ("lon", "EW", "W")):
        v = abs(float(vals[pos])) * (-1 if vals[dirn] == neg else 1)
        got = getattr(m, pos, None)
        ctx.check(got == v, "sign", lambda: f"{defn} {fields}: {pos}={got!r} want {v!r}")
    ctx.count("decimal")
    ctx.seen("d", fields)


def usergroups(ctx):
    for _ in range(ctx.n(100)):
        la, lo = f"{ctx.rng.uniform(0, 90):.7f}", f"{ctx.rng.uniform(0, 180):.{ctx.rng.randint(1, 8)}f}"
        ty = ["DE", "DE"]
        if ctx.rng.random() < 0.3:
            la, ty[0] = str(ctx.rng.randint(0, 90)), ctx.rng.choice(("DE", "IN"))
        if ctx.rng.random() < 0.3:
            lo, ty[1] = str(ctx.rng.randint(0, 180)), ctx.rng.choice(("DE", "IN"))
        la, lo = (ctx.rng.choice(("", "", "", "-", "+")) + x for x in (la, lo))
        rows = [(["lat", ty[0]], la), (["NS", "LAD"], ctx.rng.choice("NS")), (["lon", ty[1]], lo), (["EW", "LND"], ctx.rng.choice("EW"))]
        rows = [rows[i] for i in ctx.rng.choice(((0, 1, 2, 3), (2, 3, 0, 1), (0, 2, 1, 3), (2, 0, 3, 1)))]
        rows.insert(ctx.rng.randint(0, 4), (["h", "ST"], "x"))
        ctx.case("decimal", defn=[r[0] for r in rows], msgid=gen.unknown_id(ctx.rng), fields=[r[1] for r in rows],
                 mode=ctx.rng.randrange(3))
    for _ in range(ctx.n(300)):
        order = ctx.rng.choice((["LA", "LAD", "LN", "LND"], ["LN", "LND", "LA", "LAD"], ["LA", "LN", "LAD", "LND"],
                                ["LN", "LA", "LND", "LAD"]))
        names = {"LA": ctx.rng.choice(("lat", "latitude", "la_x")), "LN": ctx.rng.choice(("lon", "lng")),
                 "LAD": ctx.rng.choice(("NS", "nsi")), "LND": ctx.rng.choice(("EW", "ewi"))}
        items = [[names[t], t] for t in order]
        reps = ctx.rng.randint(1, 4)
        defn = [["h", "ST"], ["g", {"n": ctx.rng.choice((reps, "None")), "items": items}]]
        fields = ["x"]
        for _ in range(reps):
            for t in order:
                fields.append(btext(ctx.rng, t) if t in ("LA", "LN") else ctx.rng.choice("NS" if t == "LAD" else "EW"))
        ctx.case("user", defn=defn, msgid=gen.unknown_id(ctx.rng), fields=fields, mode=ctx.rng.randrange(3))


def blanks(ctx):
    """Blank positions, blank or odd directions: never a wrong sign, never an error."""
    for i in range(ctx.n(600)):
        mode, key = POSLAY[i % len(POSLAY)]
        fields = fields_of(ctx.rng, mode, key, True)
        lay = spec.walk(spec.DEFS[mode][key], fields)
        for j, (n, t, x) in enumerate(lay):
            if t in ("LA", "LN") and ctx.rng.random() < 0.4:
                fields[j] = ""
            elif t in ("LAD", "LND") and ctx.rng.random() < 0.3:
                fields[j] = ""
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        ctx.case("parse", mode=mode, key=key, talker=talker, msgid=msgid, fields=fields, via=False)
