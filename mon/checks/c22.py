"""C22 shorter and longer sentences than defined degrade gracefully."""

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.checks.c05 import userdef
from mon.lib import attrs, expect_attrs, make, parse, same, stream_of, reader

PROPERTY = "C22"
RULE = (
    "Every layout in every mode (and random user definitions): a complete sentence, then every truncation of its field "
    "list and extensions by 1..200 fields, by direct parsing, reader and payload keyword, all flags. Judged by the "
    "reference decoder, by prefix comparison with the library's own decoding of the complete sentence, and by "
    "byte equality of payload and serialization. Non-trivial: distinct (layout, mode, number of fields)."
)
NEED = {"layouts_seen": 630, "truncated": 15000, "extended": 6000, "prefix": 10000, "extension": 4000, "strict": 4000,
        "empty": 500, "user": 1000, "sign kept or absent": 1000, "reader": 2000}
QUICK = 4


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("short", "short2", "short3", "long", "long2", "blanks", "userdefs", "userdefs2")]


def indeterminate(defn):
    return any(isinstance(t, dict) and t["n"] == "None" for _, t in defn)


def decode(ctx, talker, msgid, fields, mode, validate, user, via, what):
    raw = spec.frame(talker, msgid, fields)
    if via == "reader":
        seen = []
        r = reader(stream_of(raw), msgmode=mode, validate=validate, userdefined=user, quitonerror=1,
                       errorhandler=seen.append)
        got, m = r.read()
        ctx.check(m is not None, "not decoded", lambda: f"{what}: {got!r} {seen!r}")
        ctx.count("reader")
    elif via == "construct":
        k, m = make(talker, msgid, mode, payload=list(fields), validate=validate, userdefined=user)
        ctx.check(k == "msg", "not decoded", lambda: f"{what}: {k} {m!r}")
    else:
        k, m = parse(raw, mode, validate, user)
        ctx.check(k == "msg", "not decoded", lambda: f"{what}: {k} {m!r}")
    ctx.check(m.payload == fields, "payload", lambda: f"{what}: {m.payload}")
    ctx.check(m.serialize() == raw, "serialization", lambda: f"{what}: {m.serialize()!r}")
    return m


def case_length(ctx, talker, msgid, full, n, extra, mode, validate=1, user=None, via="parse"):
    """full: a complete field list; n: how many of them are present; extra: surplus fields."""
    user = user_of(user) if user is not None else None
    fields = full[:n] + extra
    key = spec.key_for_fields(mode, msgid, full, user)
    key2 = spec.key_for_fields(mode, msgid, fields, user)
    defn = None
    if key[1] is not None:
        defn = spec.from_user(user[key[1]]) if key[0] == "user" else spec.DEFS[mode][key[1]]
    what = f"{talker}{msgid} {fields!r} mode {mode} (of {len(full)})"
    try:
        _, exp, _ = spec.decode(mode, talker, msgid, fields, user)
    except spec.TypeErr:
        return
    if any(e[0] == "any" for _, e in exp):
        ctx.count("undecided")
        return
    strict = validate & 2
    if strict and key2[1] is None:
        validate &= 1  # another layout, or none, is selected by what is left
    elif strict:
        ctx.count("strict")
    m = decode(ctx, talker, msgid, fields, mode, validate, user, via, what)
    expect_attrs(ctx, m, exp, what)
    ctx.count("extended" if extra else "truncated")
    if not fields:
        ctx.count("empty")
    if user:
        ctx.count("user")
    ctx.seen(msgid if not user else "user", key[1] if not user else 0, mode, len(fields))
    if key2 != key or defn is None:
        return
    # the library's own reading of the complete sentence
    k, whole = parse(spec.frame(talker, msgid, full), mode, 1, user)
    if k != "msg":
        return
    a, b = attrs(m), attrs(whole)
    if extra and n == len(full):
        if not indeterminate(defn) and len(spec.walk(defn, full)) == len(spec.walk(defn, fields)):  # was complete
            ctx.check(list(a) == list(b) and all(same(a[x], b[x]) for x in b), "extra fields change the defined attributes",
                      lambda: f"{what}: {m} not {whole}")
            ctx.count("extension")
    elif not extra and not indeterminate(defn):
        lead = list(b)[:min(n, len(b))]
        ctx.check(list(a) == lead, "not exactly the leading attributes", lambda: f"{what}: {list(a)} not {lead}")
        signs = dict(enumerate(lead))
        types = {x: t for x, t, _ in spec.walk(defn, full)}
        for i, x in signs.items():
            if types.get(x) in ("LA", "LN") and isinstance(b[x], float) and not same(a[x], b[x]):
                # only where the direction field that gives the sign has been cut off
                later = [types.get(y) for y in list(b)[i + 1:]]
                here = [types.get(y) for y in lead[i + 1:]]
                d = types[x] + "D"
                ctx.check(abs(a[x]) == abs(b[x]) and here.count(d) < later.count(d) and a[x] >= 0,
                          "sign of a position", lambda: f"{what}: {x}={a[x]} not {b[x]}")
            else:
                ctx.check(same(a[x], b[x]), "value differs from that in the full sentence",
                          lambda: f"{what}: {x}={a[x]!r} not {b[x]!r}")
            if types.get(x) in ("LA", "LN"):
                ctx.count("sign kept or absent")
        ctx.count("prefix")


def go(ctx, talker, msgid, full, n, extra, mode, user=None):
    rng = ctx.rng
    via = rng.choice(("parse", "parse", "construct", "reader" if talker[0] in spec.HEADERS and oneline(full + extra) else "parse"))
    ctx.case("length", talker=talker, msgid=msgid, full=full, n=n, extra=extra, mode=mode, validate=rng.randrange(4), user=user, via=via)


def oneline(fields):
    return not set("\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") & set("".join(fields))


def tidy(rng, mode, key, reps=None):
    """A complete, fully convertible field list."""
    return gen.fields_for(rng, mode, key, 0.0, reps)


def short(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1)):
        for i, (mode, key) in enumerate(gen.LAYOUTS):
            if i % 3 != ("short", "short2", "short3").index(ctx.job.split("#")[0]):
                continue
            talker, msgid = gen.talker_for(rng, mode, key)
            full = tidy(rng, mode, key, rng.choice((None, 1, 2, 3)))
            ctx.count("layouts_seen")
            for n in range(len(full) + 1):
                if n < 40 or rng.random() < 0.1:
                    go(ctx, talker, msgid, full, n, [], mode)


short2 = short3 = short


def long(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1)):
        for mode, key in gen.LAYOUTS:
            talker, msgid = gen.talker_for(rng, mode, key)
            full = tidy(rng, mode, key, rng.choice((None, 0, 1, 2)))
            for k in (1, 2, rng.choice((3, 4, 5, 8, 11, 30, 99, 200))):
                extra = [rng.choice(("", "0", "1", "7.5", gen.text(rng, "plain"))) for _ in range(k)]
                go(ctx, talker, msgid, full, len(full), extra, mode)


long2 = long


def blanks(ctx):
    """Complete but all blank, cut and extended."""
    rng = ctx.rng
    for _ in range(ctx.n(1)):
        for mode, key in gen.LAYOUTS:
            talker, msgid = gen.talker_for(rng, mode, key)
            full = [""] * sum((t["n"] * len(t["items"]) if isinstance(t["n"], int) else 0) if isinstance(t, dict) else 1
                              for _, t in spec.DEFS[mode][key])
            _, _, first = spec.base_id(mode, key)
            if full and first is not None:
                full[0] = first
            n = rng.randint(0, len(full))
            go(ctx, talker, msgid, full, n, [], mode)
            go(ctx, talker, msgid, full, len(full), [""] * rng.randint(1, 20), mode)


def userdefs(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150)):
        msgid = gen.unknown_id(rng)
        d, full = userdef(rng)
        talker, mode = rng.choice(("GN", "P", "GP", "II")), rng.randrange(3)
        for n in range(len(full) + 1):
            go(ctx, talker, msgid, full, n, [], mode, [[msgid, d]])
        go(ctx, talker, msgid, full, len(full), [gen.text(rng, "plain") for _ in range(rng.randint(1, 9))], mode, [[msgid, d]])


userdefs2 = userdefs
