"""C24 command variants sharing one message id are told apart correctly."""

import itertools

from mon import gen, spec
from mon.checks.c06 import back_ok, unframe, utc
from mon.core import show
from mon.lib import attrs, errname, expect_attrs, make, parse, same, stream_of, reader

PROPERTY = "C24"
RULE = (
    "Every id with several layouts: every layout literally (parsed by keyword, bytes and reader), every number of fields "
    "0..20 and every kind of first field in every mode, every subset of the layouts' attributes as keywords (exhaustive "
    "for ids of up to 8 attributes), every sub-message id of the prefix families and near misses; OK/ERROR responses of "
    "every Quectel id in every mode. Non-trivial: distinct (id, mode, layout, route, number of fields)."
)
NEED = {"layout parsed": 4000, "layout built": 3000, "lengths": 3000, "subsets": 2500, "sub ids": 2000, "unknown sub ids": 800,
        "acks": 600, "naks": 600, "not ack": 1500, "acks strict": 200, "attitude": 100, "layouts_seen": 140, "parsed back": 4000}
QUICK = 5
FAMILY = ("QTMCFGGEOFENCE", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT", "QTMCFGUART", "QTMSN", "STMDRSENMSG")
UNBUILT = {(0, "QTMCFGGEOFENCE_DIS"), (0, "QTMSN_ALT"), (0, "QTMACK"), (0, "QTMNAK")}  # no selecting keywords
UNPARSED = {(0, "QTMCFGGEOFENCE_DIS")}  # no selecting field
# the number of fields at which each alternative layout applies, as the layouts are defined
VARIANTS = [(m, k) for m, k in gen.LAYOUTS if spec.base_id(m, k)[1] in FAMILY or spec.base_id(m, k)[2] is not None
            or k in ("QTMACK", "QTMNAK", "ASHR")]
QTM = sorted(i for i in spec.PROP if i.startswith("QTM") and i not in ("QTMACK", "QTMNAK"))


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("layouts", "layouts2", "lengths", "subsets", "subsets2", "subids", "responses", "building")]


def names(mode, key):
    return [n for n, _ in spec.DEFS[mode][key]]


def decode(ctx, talker, msgid, fields, mode, validate, via, what):
    raw = spec.frame(talker, msgid, fields)
    if via == "reader":
        seen = []
        r = reader(stream_of(raw), msgmode=mode, validate=validate, quitonerror=1, errorhandler=seen.append)
        m = r.read()[1]
        return ("msg", m) if m is not None else ("err", seen[0]) if seen else ("none", None)
    if via == "construct":
        return make(talker, msgid, mode, payload=list(fields), validate=validate)
    return parse(raw, mode, validate)


def case_layout(ctx, mode, key, fields, validate, via):
    """A complete sentence of a layout has exactly that layout's attributes."""
    _, msgid, _ = spec.base_id(mode, key)
    what = f"{key} mode {mode} {fields!r}"
    k, m = decode(ctx, "P", msgid, fields, mode, validate, via, what)
    ctx.check(k == "msg", "not decoded", lambda: f"{what}: {k} {m!r}")
    exp = spec.decode_with(spec.DEFS[mode][key], fields, key)
    if not any(isinstance(t, dict) for _, t in spec.DEFS[mode][key]):
        ctx.check(list(attrs(m)) == names(mode, key), "not that layout's attributes", lambda: f"{what}: {m}")
    expect_attrs(ctx, m, exp, what)
    ident = spec.identity("P", msgid, fields, exp)
    ctx.check(m.identity == ident and m.msgID == msgid, "identity", lambda: f"{what}: {m.identity} not {ident}")
    ctx.check(m.payload == fields and m.serialize() == spec.frame("P", msgid, fields), "payload", lambda: what)
    ctx.count("layout parsed")
    ctx.seen(key, mode, via, len(fields))


def case_fields(ctx, talker, msgid, fields, mode, validate, via):
    """Any field list: which layout applies (or none) as the reference says."""
    what = f"{talker}{msgid} {fields!r} mode {mode} validate {validate}"
    k, m = decode(ctx, talker, msgid, fields, mode, validate, via, what)
    src, key = spec.key_for_fields(mode, msgid, fields)
    if key is None and validate & 2:
        ctx.check(k == "err" and (errname(m) == ("NMEAMessageError" if via == "construct" else "NMEAParseError")),
                  "undefined layout accepted", lambda: f"{what}: {k} {m!r}")
        ctx.seen(msgid, mode, len(fields), "undefined")
        return
    try:
        how, exp, _ = spec.decode(mode, talker, msgid, fields)
    except spec.TypeErr:
        ctx.check(k != "msg", "field of the wrong kind accepted", lambda: f"{what}: {m}")
        return
    if k != "msg" and any(e[0] == "any" for _, e in exp):
        return
    ctx.check(k == "msg", "not decoded", lambda: f"{what}: {k} {m!r}")
    expect_attrs(ctx, m, exp, what)
    ctx.check(m.payload == fields, "payload", lambda: what)
    ident = spec.identity(talker, msgid, fields, exp)
    ctx.check(m.identity == ident, "identity", lambda: f"{what}: {m.identity} not {ident}")
    ctx.count("lengths" if msgid in FAMILY else "sub ids")
    ctx.seen(msgid, mode, len(fields), key, fields[:1])


def case_response(ctx, msgid, fields, mode, validate, via):
    """OK and ERROR responses, to whatever command or query, in receive mode only."""
    what = f"P{msgid} {fields!r} mode {mode} validate {validate}"
    k, m = decode(ctx, "P", msgid, fields, mode, validate, via, what)
    if mode == 0 and fields == ["OK"]:
        want = {"status": "OK"}
    elif mode == 0 and len(fields) == 2 and fields[0] == "ERROR":
        want = {"status": "ERROR", "errcode": int(fields[1])}
    else:
        case_fields(ctx, "P", msgid, fields, mode, validate, via)
        ctx.count("not ack")
        return
    ctx.check(k == "msg", "response not decoded", lambda: f"{what}: {k} {m!r}")
    got = attrs(m)
    ctx.check(got == want and list(got) == list(want) and all(same(got[n], want[n]) for n in want), "response attributes",
              lambda: f"{what}: {m}")
    ctx.check(m.identity == "P" + msgid and m.msgID == msgid and m.payload == fields, "response identity", lambda: f"{what}: {m}")
    ctx.count("acks" if fields == ["OK"] else "naks")
    if validate & 2:
        ctx.count("acks strict")
    ctx.seen("response", msgid, fields[0], mode, validate)


def case_build(ctx, mode, msgid, kw, hp=False, want=None, validate=1):
    """Keywords select a layout; the message is that layout and parses back to itself."""
    key = spec.key_for_kwargs(mode, msgid, kw)
    if key is None:
        ctx.count("no layout")
        return
    what = f"P{msgid} mode {mode} {show(kw, 300)}"
    if want is not None and want != key:
        ctx.check(False, "harness: keywords do not select the layout", f"{what} {key} {want}")
    t0 = utc()
    k, m = make("P", msgid, mode, hpnmeamode=hp, validate=validate, **kw)
    t1 = utc()
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m!r}")
    hdr, *fields = unframe(ctx, m.serialize(), what)
    ctx.check(hdr == "P" + msgid, "header", lambda: f"{what}: {m.serialize()!r}")
    exp = spec.build(mode, key, kw, hp)
    ctx.check(list(attrs(m)) == [n for n, _, _ in exp], "not that layout", lambda: f"{what}: {m} is not {key}")
    ctx.check(len(fields) == len(exp), "number of fields", lambda: f"{what}: {fields}")
    for (n, t, e), text in zip(exp, fields):
        ctx.check(spec.text_agrees(e, text, t0, t1), "field text", lambda: f"{what}: {n}: expected {show(e)} got {text!r}")
    k, p = parse(m.serialize(), mode, validate)
    ctx.check(k == "msg", "does not parse back", lambda: f"{what}: {m.serialize()!r} {p!r}")
    ctx.check(list(attrs(p)) == list(attrs(m)), "parses back to another layout", lambda: f"{what}: {m} -> {p}")
    for n, t, e in exp:
        if n in kw and t in ("ST", "CH", "HX", "QS", "IN", "DE", "TM", "DT", "DM", "DTL"):
            ctx.check(back_ok(kw[n], t, getattr(p, n), hp), "value does not parse back", lambda: f"{what}: {n}={getattr(p, n)!r}")
    ctx.check(p.identity == m.identity, "identity", lambda: f"{what}: {p.identity} {m.identity}")
    ctx.count("parsed back")
    ctx.count("layout built" if want else "subsets")
    ctx.seen("build", key, mode, tuple(sorted(kw)))


def route(rng, fields):
    ok = not set("\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") & set("".join(fields))
    return rng.choice(("parse", "parse", "construct", "reader" if ok else "parse"))


def layouts(ctx):
    rng = ctx.rng
    seen = set()
    for _ in range(ctx.n(4)):
        for mode, key in VARIANTS:
            if (mode, key) in UNPARSED:
                continue
            fields = gen.fields_for(rng, mode, key)
            _, msgid, _ = spec.base_id(mode, key)
            if spec.key_for_fields(mode, msgid, fields)[1] != key:
                if key not in ("ASHR", "QTMSN"):
                    raise AssertionError((mode, key, fields))
                continue
            if key in ("QTMACK", "QTMNAK"):
                fields = ["OK"] if key == "QTMACK" else ["ERROR", str(rng.randint(0, 99))]
            seen.add((mode, key))
            ctx.case("layout", mode=mode, key=key, fields=fields, validate=rng.randrange(4), via=route(rng, fields))
    if ctx.job == "layouts#0":
        ctx.count("layouts_seen", len(seen))


layouts2 = layouts


def value(rng, i):
    if i == 0:
        return rng.choice(("OK", "ERROR", "R", "W", "", "1", "0", "24", "3", "30", "31", "99", "ok", "A"))
    return rng.choice((str(rng.randint(0, 9999)), str(rng.randint(0, 9)), "", "0", "1"))


def lengths(ctx):
    rng = ctx.rng
    for msgid in FAMILY:
        for mode in (0, 1, 2):
            for n in range(21):
                for first in ("OK", "ERROR", "R", "W", "03", "030", " 3", "3 ", "+3", "3.0", "1", "0", "3", "24", "30", "31", "99", "", "-1", "²", "1.5", "A"):
                    fields = ([first] + [value(rng, i) for i in range(1, n)])[:n]
                    ctx.case("fields", talker="P", msgid=msgid, fields=fields, mode=mode, validate=rng.randrange(4),
                             via=route(rng, fields))


def subsets(ctx):
    """Every subset of every attribute any layout of the id has, in a mode."""
    rng = ctx.rng
    for msgid in FAMILY[:-1]:
        for mode in (0, 1, 2):
            keys = [k for k in spec.DEFS[mode] if spec.base_id(mode, k)[1] == msgid]
            types = {n: t for k in keys for n, t in spec.DEFS[mode][k]}
            if not types:
                continue
            every = list(itertools.product((0, 1), repeat=len(types)))
            if len(every) > 256:
                every = rng.sample(every, 256)
            for pick in every:
                kw = {n: one(rng, n, t, mode) for (n, t), on in zip(types.items(), pick) if on}
                ctx.case("build", mode=mode, msgid=msgid, kw=kw, validate=rng.randrange(4))


subsets2 = subsets


def one(rng, n, t, mode):
    if n == "status":  # OK or ERROR would make a query's answer of a two-field message
        return {0: "OK", 1: "W", 2: "R"}[mode]
    if n in ("enable", "geofencemode"):
        return rng.choice((0, 0, 1, 2))
    if n == "signalid":
        return "07"
    return gen.typed(rng, t)


def subids(ctx):
    rng = ctx.rng
    known = {}
    for m, k in gen.LAYOUTS:
        _, p, first = spec.base_id(m, k)
        if first is not None and p in spec.PREFIX:
            known.setdefault(p, set()).add(first)
    for prefix, subs in sorted(known.items()):
        for mode in (0, 1, 2):
            for sub in sorted(subs):  # every sub id in every mode, defined there or not
                for n in (0, 1, 5, 60):
                    fields = [sub] + [""] * n
                    ctx.case("fields", talker="P", msgid=prefix, fields=fields, mode=mode, validate=rng.randrange(4), via=route(rng, fields))
                for kw in ({"msgId": sub},):
                    ctx.case("build", mode=mode, msgid=prefix, kw=kw, validate=rng.randrange(4))
            for _ in range(ctx.n(20)):
                s = rng.choice(sorted(subs))
                bad = rng.choice((s + "X", s[:-1], "", "ZZ", s[::-1], "99", "OK", "ERROR", " ", s + " ", "1", "é", "A1", "11"))
                if (prefix + bad) in spec.PROP or (prefix + bad).upper() in {k for m in (0, 1, 2) for k in spec.DEFS[m]}:
                    continue
                if prefix == "ASHR" and bad[1:2].isdigit():
                    continue
                fields = [bad] + [value(rng, 1) for _ in range(rng.randint(0, 9))]
                ctx.case("fields", talker="P", msgid=prefix, fields=fields, mode=mode, validate=rng.randrange(4), via=route(rng, fields))
                ctx.count("unknown sub ids")
            ctx.case("fields", talker="P", msgid=prefix, fields=[], mode=mode, validate=0, via="parse")
    for _ in range(ctx.n(60)):  # attitude sentence of PASHR has a time where others have the sub id
        fields = gen.fields_for(rng, 0, "ASHR")
        fields[0] = gen.time_text(rng)
        ctx.case("layout", mode=0, key="ASHR", fields=fields, validate=rng.randrange(4), via=route(rng, fields))
        ctx.count("attitude")


def responses(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1)):
        for msgid in QTM:
            for fields in (["OK"], ["ERROR", str(rng.randint(0, 99))]):
                for validate in (0, 1, 2, 3):
                    ctx.case("response", msgid=msgid, fields=fields, mode=0, validate=validate, via=route(rng, fields))
                ctx.case("response", msgid=msgid, fields=fields, mode=rng.choice((1, 2)), validate=rng.randrange(4), via="parse")
            for fields in (["ok"], ["OK", ""], ["ERROR"], ["ERROR", "1", "2"], ["R"], ["W"], [""], ["1"], ["OK", "1"], ["OK", "1", "2"],
                           ["Error", "1"], [" OK"]):
                ctx.case("response", msgid=msgid, fields=fields, mode=rng.randrange(3), validate=rng.randrange(4), via="parse")
    others = sorted(i for i in spec.PROP - {"FOO"} if not i.startswith("QTM"))
    for msgid in others:  # other makers' messages have no such responses
        fields = rng.choice((["OK"], ["ERROR", "1"]))
        if msgid != "ASHR" and not msgid.startswith(spec.PREFIX):
            ctx.case("fields", talker="P", msgid=msgid, fields=fields, mode=0, validate=rng.randrange(4), via="parse")


def building(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6)):
        for mode, key in VARIANTS:
            if (mode, key) in UNBUILT or key == "ASHR":
                continue
            _, msgid, _ = spec.base_id(mode, key)
            kw = gen.kwargs_for(rng, mode, key, p=rng.choice((0.0, 0.3, 0.7, 1.0)))
            if "status" in kw and msgid in FAMILY:
                kw["status"] = {0: "OK", 1: "W", 2: "R"}[mode]
            if key == "QTMCFGPPS" and mode == 1 and rng.random() < 0.3:
                kw["enable"] = rng.choice((1, 2))
            if spec.key_for_kwargs(mode, msgid, kw) != key:
                continue
            ctx.case("build", mode=mode, msgid=msgid, kw=kw, hp=rng.random() < 0.3, want=key, validate=rng.randrange(4))
            ctx.seen("want", mode, key)
