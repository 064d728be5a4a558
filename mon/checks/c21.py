"""C21 recognition policy: known, unknown and user-defined messages."""

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.checks.c05 import userdef
from mon.checks.c06 import unframe, utc
from mon.checks.c08 import valid_sentence
from mon.core import show
from mon.lib import attrs, errname, expect_attrs, make, parse, same_attrs, stream_of, reader

PROPERTY = "C21"
RULE = (
    "Known/unknown talkers x every catalogued id, near misses of ids (one letter changed, added, dropped, other case), "
    "random ids x three modes x four validation flags x with/without user definitions (of the id, of other ids, of "
    "catalogued ids) by direct parsing, reader and constructor; user definitions random and copied from the built-in "
    "ones; every use repeated without the definition afterwards. Non-trivial: distinct (route, id or its class, mode, "
    "flags, outcome)."
)
NEED = {"accepted": 5000, "rejected": 5000, "nominal": 3000, "nominal fields": 8000, "undefined in mode": 1500,
        "unknown talker": 1500, "constructed": 2000, "construction rejected": 2000, "user": 3000, "user overridden": 800,
        "user reader": 1000, "user like built-in": 600, "user gone": 2000, "user built": 1000, "near misses": 2000,
        "reader": 3000, "malformed": 2000, "malformed in a stream": 500, "proprietary id behind a talker": 300}
QUICK = 6


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k)
            for n in ("catalogue", "unknown", "malformed", "talkers", "nearmiss", "userdefs", "overrides", "copies", "userbuild")]


def recognised(talker, msgid, fields, mode, user):
    src, key = spec.key_for_fields(mode, msgid, fields, user)
    return talker in spec.CAT["talkers"] and src != "none" and key is not None


def nominal_ok(ctx, m, fields, what):
    got = list(attrs(m).items())
    want = [(f"field_{i + 1:02d}", f) for i, f in enumerate(fields)]
    ctx.check(got == want, "nominal fields", lambda: f"{what}: {show(got)}")
    ctx.count("nominal fields", len(fields))


def verdict(ctx, k, m, talker, msgid, fields, mode, validate, user, what, route):
    """Judge the outcome of one sentence handled under one configuration."""
    src, key = spec.key_for_fields(mode, msgid, fields, user)
    known = recognised(talker, msgid, fields, mode, user)
    if talker not in spec.CAT["talkers"]:
        ctx.count("unknown talker")
    if src in ("std", "prop") and key is None:
        ctx.count("undefined in mode")
    cls = msgid if src in ("std", "prop") else src
    if validate & 2 and not known:
        want = "NMEAMessageError" if route == "construct" else "NMEAParseError"
        ctx.check(k == "err", "unrecognised message accepted", lambda: f"{what}: {m}")
        ctx.check(errname(m) == want, "wrong error for an unrecognised message", lambda: f"{what}: {m!r}")
        ctx.count("construction rejected" if route == "construct" else "rejected")
        ctx.seen(route, cls, mode, validate, "rejected", talker in spec.CAT["talkers"])
        return
    try:
        how, exp, _ = spec.decode(mode, talker, msgid, fields, user)
    except spec.TypeErr:
        return
    if k == "err" and errname(m) == "NMEATypeError" and any(e[0] == "any" for _, e in exp):
        ctx.count("undecided")  # a field the reference has no opinion on
        return
    ctx.check(k == "msg", "message not accepted", lambda: f"{what}: {k} {m!r}")
    expect_attrs(ctx, m, exp, what)
    who = spec.identity(talker, msgid, fields, exp)
    ctx.check((m.talker, m.msgID, m.identity) == (talker, msgid, who), "identity",
              lambda: f"{what}: {m.talker} {m.msgID} {m.identity}, expected {who}")
    if msgid in spec.PREFIX and talker != "P":
        ctx.count("proprietary id behind a talker")
    ctx.check(m.payload == fields, "payload", lambda: f"{what}: {m.payload}")
    if how == "nominal":
        nominal_ok(ctx, m, fields, what)
        ctx.count("nominal")
    if src == "none":
        ctx.check(str(m).startswith(f"<NMEA({talker}{msgid}, NOMINAL"), "not shown as NOMINAL", lambda: f"{what}: {m}")
    else:
        ctx.check("NOMINAL" not in str(m).split(",", 2)[1:2], "shown as NOMINAL", lambda: f"{what}: {m}")
    if src == "user":
        ctx.count("user")
    ctx.count("constructed" if route == "construct" else "accepted")
    ctx.seen(route, cls, mode, validate, how, len(fields))


def case_sentence(ctx, talker, msgid, fields, mode, validate, user=None, route="parse"):
    frozen = repr(user)
    user = user_of(user) if user is not None else None
    before = repr(user)
    raw = spec.frame(talker, msgid, fields)
    what = f"{route} {raw!r} mode {mode} validate {validate} user {show(frozen, 200)}"
    if route == "parse":
        k, m = parse(raw, mode, validate, user)
    elif route == "construct":
        k, m = make(talker, msgid, mode, payload=list(fields), validate=validate, userdefined=user)
    else:
        seen = []
        r = reader(stream_of(raw), msgmode=mode, validate=validate, userdefined=user, quitonerror=1,
                       errorhandler=seen.append)
        got, m = r.read()
        k = "msg" if m is not None else "none"
        if m is None and seen:
            k, m = "err", seen[0]
        ctx.check(len(seen) <= 1 and (got == raw) == (k == "msg"), "reader outcome", lambda: f"{what}: {got!r} {seen}")
        ctx.count("reader")
        if user:
            ctx.count("user reader")
    ctx.check(repr(user) == before, "user definition altered", lambda: f"{what}: {user!r}")
    verdict(ctx, k, m, talker, msgid, fields, mode, validate, user, what, route)
    if k == "msg":
        ctx.check(m.serialize() == raw, "does not round-trip", lambda: f"{what}: {m.serialize()!r}")
        k2, again = parse(m.serialize(), mode, validate, user)
        ctx.check(k2 == "msg" and same_attrs(attrs(again), attrs(m)), "does not round-trip", lambda: f"{what}: {again}")
    if user is not None:  # the definition ends with the call it was given to
        k, m = parse(raw, mode, validate, None)
        verdict(ctx, k, m, talker, msgid, fields, mode, validate, None, "afterwards, " + what, "parse")
        k, m = make(talker, msgid, mode, payload=list(fields), validate=validate)
        verdict(ctx, k, m, talker, msgid, fields, mode, validate, None, "afterwards, " + what, "construct")
        if msgid in user:
            ctx.count("user overridden" if spec.key_for_fields(mode, msgid, fields, None)[0] != "none" else "user gone")


def case_malformed(ctx, text, mode, validate, user):
    """Text that cannot be split into header, fields and checksum."""
    user = user_of(user) if user is not None else None
    k, m = parse(text, mode, validate, user)
    what = f"{text!r} mode {mode} validate {validate}"
    if validate & 2:
        ctx.check(k == "err" and errname(m) == "NMEAParseError", "malformed text not refused", lambda: f"{what}: {k} {m!r}")
    else:
        ctx.check(k == "none", "malformed text not ignored", lambda: f"{what}: {k} {m!r}")
    ctx.count("malformed")
    ctx.seen("malformed", type(text).__name__, len(text), mode, validate)


def case_between(ctx, text, mode, validate, good, iterate):
    """The same text as a line between two good sentences of a stream."""
    seen = []
    r = reader(stream_of(good[0] + text + good[1]), msgmode=mode, validate=validate, quitonerror=1,
               errorhandler=seen.append)
    got = []
    for _ in range(6):
        if iterate:
            raw, m = next(r, (None, None))
        else:
            raw, m = r.read()
        if raw is None:
            break
        got.append((raw, m is not None))
    what = f"{good[0] + text + good[1]!r} mode {mode} validate {validate} iterate {iterate}: {show(got, 300)} {seen!r}"
    if validate & 2:
        ctx.check(got == [(good[0], True), (good[1], True)] and [errname(e) for e in seen] == ["NMEAParseError"],
                  "malformed line in a stream not refused", what)
    else:
        ctx.check(got == [(good[0], True), (text, False), (good[1], True)] and not seen,
                  "malformed line in a stream not ignored", what)
    ctx.count("malformed in a stream")
    ctx.seen("between", len(text), mode, validate, iterate)


def case_keywords(ctx, talker, msgid, mode, validate, kw):
    """Constructing from keywords obeys the same policy."""
    what = f"{talker}{msgid} mode {mode} validate {validate} {kw}"
    k, m = make(talker, msgid, mode, validate=validate, **kw)
    key = spec.key_for_kwargs(mode, msgid, kw)
    known = (msgid in spec.STD | spec.PROP or msgid in spec.PREFIX) and key is not None and talker in spec.CAT["talkers"]
    if known:
        ctx.check(k == "msg", "not built", lambda: f"{what}: {m!r}")
        ctx.count("constructed")
    elif validate & 2 or (msgid in spec.PREFIX and "msgId" not in kw):
        ctx.check(k == "err" and errname(m) == "NMEAMessageError", "unrecognised message built", lambda: f"{what}: {m!r}")
        ctx.count("construction rejected")
    else:
        ctx.check(k == "msg", "not built", lambda: f"{what}: {m!r}")
        ctx.count("constructed")
    ctx.seen("keywords", msgid if known else "-", mode, validate, k)


def case_copy(ctx, mode, key, fields, msgid, talker):
    """A built-in definition supplied for an unknown id decodes the same fields the same way."""
    defn = spec.DEFS[mode][key]
    base = spec.base_id(mode, key)[1]
    if spec.key_for_fields(mode, base, fields)[1] != key:
        return
    k, m = parse(spec.frame(spec.base_id(mode, key)[0] or "GN", base, fields), mode)
    user = {"OTHER": {"x": "ST"}, msgid: spec.to_user(defn)}
    k2, m2 = parse(spec.frame(talker, msgid, fields), mode, 3, user)
    ctx.check(k == k2, "user definition outcome differs from built-in", lambda: f"{key} {fields}: {m!r} {m2!r}")
    if k == "msg":
        ctx.check(same_attrs(attrs(m), attrs(m2)), "user definition decodes differently from built-in",
                  lambda: f"{key} {fields}: {m} {m2}")
        ctx.count("user like built-in")
        ctx.seen("copy", key, mode, len(fields))


def case_built(ctx, mode, key, kw, msgid, talker, hp):
    """Generating with a user definition follows the same rules as a built-in one."""
    defn = spec.DEFS[mode][key]
    user = {msgid: spec.to_user(defn)}
    before = repr(user)
    what = f"{talker}{msgid} as {key} mode {mode} {show(kw, 300)}"
    t0 = utc()
    k, m = make(talker, msgid, mode, validate=3, userdefined=user, hpnmeamode=hp, **kw)
    t1 = utc()
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m!r}")
    _, *fields = unframe(ctx, m.serialize(), what)
    exp = spec.build(mode, key, kw, hp, defn)
    ctx.check(len(exp) == len(fields), "number of fields", lambda: f"{what}: {fields}")
    for (n, t, e), text in zip(exp, fields):
        ctx.check(spec.text_agrees(e, text, t0, t1), "field text", lambda: f"{what}: {n}: expected {show(e)} got {text!r}")
    k2, back = parse(m.serialize(), mode, 3, user)
    ctx.check(k2 == "msg" and list(attrs(back)) == [n for n, _, _ in exp], "does not parse back", lambda: f"{what}: {back}")
    ctx.check(repr(user) == before, "user definition altered", lambda: what)
    k, m = make(talker, msgid, mode, validate=3, **kw)
    ctx.check(k == "err" and errname(m) == "NMEAMessageError", "user definition outlives its use", lambda: f"{what}: {m}")
    ctx.count("user built")
    ctx.count("user gone")
    ctx.seen("built", key, mode, len(kw))


def run(ctx, talker, msgid, fields, mode, user=None, validates=(0, 1, 2, 3)):
    rng = ctx.rng
    routes = ["parse", "construct"] + (["reader"] * 2 if talker[:1] in spec.HEADERS and readable(talker, msgid, fields) else [])
    ctx.case("sentence", talker=talker, msgid=msgid, fields=fields, mode=mode, validate=rng.choice(validates), user=user,
             route=rng.choice(routes))


def readable(talker, msgid, fields):
    """Would a reader deliver this exact line?  (it must be one line, starting like NMEA)"""
    return not set("\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") & set("".join(fields) + msgid)


def catalogue(ctx):
    """Every id in every mode, defined there or not."""
    rng = ctx.rng
    ids = sorted((spec.STD | spec.PROP | set(spec.PREFIX)) - {"FOO"})  # FOO: test entry with unreal types
    for _ in range(ctx.n(1)):
        for msgid in ids:
            mode = rng.randrange(3)
            talker = rng.choice(gen.STDTALK) if msgid in spec.STD else "P"
            if msgid in spec.PREFIX:
                fields = [rng.choice(("", "ZZ", "00", "GGK", "HRP", "41", "POS", "123.4"))] + [""] * rng.randint(0, 3)
            else:
                fields = [""] * rng.randint(0, 6)
            run(ctx, talker, msgid, fields, mode, validates=(0, 1, 2, 3, 2, 3))
            kw = {}
            if msgid in spec.PREFIX and rng.random() < 0.7:
                kw["msgId"] = rng.choice(("ZZ", "00", "GGK", "HRP", "41", "POS"))
            if msgid == "STMDRSENMSG":
                kw["msgtype"] = rng.choice((3, 11, 99))
            ctx.case("keywords", talker=talker, msgid=msgid, mode=mode, validate=rng.randrange(4), kw=kw)
    for i in range(ctx.n(900)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(rng, mode, key)
        run(ctx, talker, msgid, gen.fields_for(rng, mode, key), mode if rng.random() < 0.6 else rng.randrange(3),
            validates=(2, 3))


def malformed(ctx):
    """No checksum separator, or bytes that are not text."""
    rng = ctx.rng
    for i in range(ctx.n(700)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(rng, mode, key)
        text = spec.frame(talker, msgid, gen.fields_for(rng, mode, key))
        k = rng.randrange(5)
        if k == 0:
            text = text.replace(b"*", b"")
        elif k == 1:
            text = text[:text.index(b"*")] + b"\r\n" * rng.randrange(2)
        elif k == 2:
            j = rng.randrange(1, len(text))
            text = text[:j] + rng.choice((b"\xff", b"\xc3", b"\x80", b"\xf8\x88")) + (b"$" if rng.random() < 0.5 else b"") + text[j:]
        elif k == 3:
            text = rng.choice((b"", b"$", b"\r\n", b"$\r\n", b"$GNGLL", b",", b"$,,,\r\n"))
        else:
            text = text[:rng.randrange(text.index(b"*") + 1)]
        if b"*" not in text and rng.random() < 0.4:
            text = text.decode("utf-8", "replace")
        if type(text) is bytes and k < 2 and text[:1] == b"$" and text[1:2] in gen.HDRBYTES and text.count(b"\n") == text.endswith(b"\r\n"):
            if not text.endswith(b"\n"):
                text += b"\r\n"
            good = []
            while len(good) < 2:
                raw = valid_sentence(rng, mode)
                if raw.count(b"\n") == 1 and parse(raw, mode, 3)[0] == "msg":
                    good.append(raw)
            ctx.case("between", text=text, mode=mode, validate=rng.randrange(4), good=good, iterate=rng.random() < 0.5)
        user = [[msgid, userdef(rng)[0]]] if rng.random() < 0.3 else None
        ctx.case("malformed", text=text, mode=mode, validate=rng.randrange(4), user=user)


def unknown(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1500)):
        n = rng.choice((0, 1, 2, 5, 9, 10, 30, 98, 99, 100, 101, 130, 999, 1000, 1100)) if rng.random() < 0.3 else rng.randint(0, 12)
        fields = [gen.text(rng) for _ in range(n)]
        run(ctx, rng.choice(gen.STDTALK + ["P"] * 20), gen.unknown_id(rng), fields, rng.randrange(3))
        ctx.case("keywords", talker=rng.choice(gen.STDTALK), msgid=gen.unknown_id(rng), mode=rng.randrange(3),
                 validate=rng.randrange(4), kw=rng.choice(({}, {"lat": 1.5})))


def talkers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1200)):
        mode, key = rng.choice(gen.LAYOUTS)
        _, msgid = gen.talker_for(rng, mode, key)
        t = rng.choice(("XX", "ZZ", "G1", "gn", "Gn", "QZ", "A", "AA", "GN", "P", rng.choice(gen.STDTALK),
                        rng.choice("ABCDEFGHIJKLMNOQRSTUVWXYZ") + rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ")))
        if rng.random() < 0.25:
            msgid = rng.choice(spec.PREFIX)
        if len(t) == 2 and t[0] == "P" or len(t) == 1 and t != "P" or msgid == "SSN" and t != "P":
            continue
        run(ctx, t, msgid, gen.fields_for(rng, mode, key), mode)
        ctx.case("keywords", talker=t, msgid=msgid, mode=mode, validate=rng.randrange(4), kw=gen.kwargs_for(rng, mode, key))


def nearmiss(ctx):
    rng = ctx.rng
    ids = sorted(spec.STD | spec.PROP | set(spec.PREFIX))
    for _ in range(ctx.n(1400)):
        s = rng.choice(ids)
        k = rng.randrange(5)
        i = rng.randrange(len(s))
        c = rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
        t = (s[:i] + c + s[i + 1:], s[:i] + c + s[i:], s[:i] + s[i + 1:], s.lower(), s + c)[k]
        if not t:
            continue
        talker = "P" if rng.random() < 0.5 else rng.choice(gen.STDTALK)
        if t.startswith(spec.PREFIX) and t in spec.PREFIX:
            continue
        fields = [gen.text(rng, "num") for _ in range(rng.randint(0, 5))]
        run(ctx, talker, t, fields, rng.randrange(3))
        ctx.count("near misses")


def userdefs(ctx):
    """Definitions for unknown ids, alone or among others."""
    rng = ctx.rng
    for _ in range(ctx.n(1500)):
        msgid = gen.unknown_id(rng)
        if rng.random() < 0.2:
            msgid = rng.choice((msgid.lower(), msgid.title()))
        d, fields = userdef(rng)
        user = [[msgid, d]]
        for _ in range(rng.randint(0, 2)):
            user.insert(rng.randint(0, len(user)), [gen.unknown_id(rng), userdef(rng)[0]])
        if rng.random() < 0.2:
            user = [u for u in user if u[0] != msgid] or [["OTHER", d]]
        talker = rng.choice(gen.STDTALK + ["P"] * 30)
        if rng.random() < 0.2:
            fields = fields[:rng.randint(0, len(fields))]
        run(ctx, talker, msgid, fields, rng.randrange(3), user)


def overrides(ctx):
    """A definition supplied for a catalogued id is not used."""
    rng = ctx.rng
    for i in range(ctx.n(900)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(rng, mode, key)
        fields = gen.fields_for(rng, mode, key)
        if rng.random() < 0.3:
            mode = rng.randrange(3)
        user = [[msgid, userdef(rng)[0]]]
        if msgid in spec.PREFIX and fields:
            user.append([msgid + fields[0], userdef(rng)[0]])
        if key != msgid:
            user.append([key, userdef(rng)[0]])
        user = [u for j, u in enumerate(user) if u[0] not in [x[0] for x in user[:j]]]
        run(ctx, talker, msgid, fields, mode, user)


def copies(ctx):
    rng = ctx.rng
    for i in range(ctx.n(900)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        if key in ("SSNSNC",) or key.startswith("SSN"):
            continue
        fields = gen.fields_for(rng, mode, key)
        if rng.random() < 0.2:
            fields = fields[:rng.randint(0, len(fields))]
        ctx.case("copy", mode=mode, key=key, fields=fields, msgid=gen.unknown_id(rng), talker=rng.choice(("GN", "P", "II")))


def userbuild(ctx):
    rng = ctx.rng
    for i in range(ctx.n(900)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        ctx.case("built", mode=mode, key=key, kw=gen.kwargs_for(rng, mode, key), msgid=gen.unknown_id(rng),
                 talker=rng.choice(("GN", "P", "II")), hp=rng.random() < 0.4)
