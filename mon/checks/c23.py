"""C23 repeating groups expand to exactly the items present."""

import random
import re

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.checks.c06 import unframe, utc
from mon.core import show
from mon.lib import attrs, expect_attrs, make, parse, pynmeagps, same, stream_of, reader

PROPERTY = "C23"
RULE = (
    "Every group-bearing layout and user definitions with each kind of group (fixed, counted, as many as fit; group in "
    "first, middle and last place, several groups, groups within groups, names with underscores and digits) x item counts 0..130 and 1000 x "
    "partial trailing items x count field above/below/blank; and messages built from suffixed keywords in shuffled "
    "order with gaps. Items are compared one by one with the fields. Non-trivial: distinct (layout, route, item count, "
    "partial fields)."
)
NEED = {"parsed": 6000, "items": 60000, "built": 2500, "built items": 25000, "over 99": 400, "zero": 200, "partial": 1500,
        "count mismatch": 800, "user": 1500, "around group": 1000, "gaps": 500, "groupsize": 2000, "nested": 500, "layouts_seen": 25}
QUICK = 4
GROUPED = [(m, k) for m, k in gen.LAYOUTS if any(isinstance(t, dict) for _, t in spec.DEFS[m][k])]


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k)
            for n in ("parsing", "parsing2", "counts", "building", "building2", "userdefs", "userbuild", "sizes", "nesting")]


def name_of(base, k):
    return f"{base}_{k:02d}" if k < 100 else f"{base}_{k}"


def case_group(ctx, talker, msgid, mode, before, items, after, n, defn, key=None, user=None, validate=1, via="parse", reps=None):
    """before + items (n complete ones, maybe a partial one) + after, each laid out literally.

    defn: the layout; user: it is supplied as a user definition.  reps: number of items that must be
    exposed when that is not n."""
    g = next((i for i, (_, t) in enumerate(defn) if isinstance(t, dict)))
    gtypes = defn[g][1]["items"]
    fields = before + items + after
    udict = {msgid: spec.to_user(defn)} if user else None
    raw = spec.frame(talker, msgid, fields)
    what = f"{raw!r} mode {mode}"
    if via == "reader":
        m = reader(stream_of(raw), msgmode=mode, validate=validate, userdefined=udict, quitonerror=2).read()[1]
        k = "msg" if m is not None else "none"
    elif via == "construct":
        k, m = make(talker, msgid, mode, payload=fields, validate=validate, userdefined=udict)
    else:
        k, m = parse(raw, mode, validate, udict)
    ctx.check(k == "msg", "not decoded", lambda: f"{what}: {k} {m!r}")
    got = attrs(m)
    # what each item of the group says, straight from the position of its fields
    width = len(gtypes)
    want = {}
    reps = n if reps is None else reps
    for i in range(reps):
        for j, (base, typ) in enumerate(gtypes):
            p = i * width + j
            if p < len(items):
                want[name_of(base, i + 1)] = (typ, items[p])
    for name, (typ, text) in want.items():
        ctx.check(name in got, "item missing", lambda: f"{what}: {name}: {show(list(got))}")
        if typ in ("LA", "LN"):
            continue  # sign depends on the next field: judged by the reference below
        if key == "SSNSNC":
            text = text.replace("[", "").replace("]", "")
        ctx.check(spec.agrees(spec.value(text, typ), got[name]), "item value", lambda: f"{what}: {name}={got[name]!r} want {text!r}")
        ctx.count("items")
    bases = {b for b, _ in gtypes}
    for name in got:
        m2 = re.match(r"(.*)_([0-9]{2,})\Z", name)
        if m2 and m2[1] in bases and name not in dict(defn[:g]) and name not in dict(defn[g + 1:]):
            ctx.check(name in want, "item invented", lambda: f"{what}: {name}={got[name]!r}")
    names = [b for b, _ in defn[:g]]
    ctx.check(list(got)[:len(before)] == names[:len(before)], "attributes before the group", lambda: f"{what}: {list(got)}")
    if after:
        tail = [b for b, t in defn[g + 1:] if not isinstance(t, dict)]
        ctx.check(list(got)[-len(after):] == tail[:len(after)], "attributes after the group", lambda: f"{what}: {list(got)}")
        for b, text in zip(tail, after):
            typ = dict(defn)[b]
            ctx.check(spec.agrees(spec.value(text, typ), got[b]), "value after the group", lambda: f"{what}: {b}={got[b]!r}")
        ctx.count("around group")
    expect_attrs(ctx, m, spec.decode_with(defn, fields, key or ""), what)
    ctx.check(m.payload == fields and m.serialize() == raw, "payload", lambda: what)
    ctx.count("parsed")
    ctx.count("user") if user else None
    if reps > 99:
        ctx.count("over 99")
    if not reps:
        ctx.count("zero")
    if len(items) % width:
        ctx.count("partial")
    ctx.seen(key or "user", g, via, reps, len(items) % width, mode)


def gitems(rng, gtypes, n, partial):
    out = [gen.field(rng, t) for _ in range(n) for _, t in gtypes]
    return out + [gen.field(rng, t) for _, t in gtypes[:partial]]


def nitems(rng):
    return rng.choice((0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 20, 33, 50, 64, 98, 99, 100, 101, 110, 130, rng.randint(0, 130)))


def edge(rng, mode, key, n):
    """Fields before and after the group of a layout that says there are n items."""
    _, _, first = spec.base_id(mode, key)
    defn = spec.DEFS[mode][key]
    g = next(i for i, (_, t) in enumerate(defn) if isinstance(t, dict))
    num = defn[g][1]["n"]
    before = [str(n) if b == num else gen.field(rng, t) for b, t in defn[:g]]
    after = [gen.field(rng, t) for _, t in defn[g + 1:]]
    if before and first is not None:
        before[0] = first
    return before, after, defn, num, defn[g][1]["items"]


def route(rng):
    return rng.choice(("parse", "parse", "construct", "reader"))


def safe(fields):
    return not set("\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") & set("".join(fields))


def parsing(ctx):
    rng = ctx.rng
    for mode, key in GROUPED:
        talker, msgid = gen.talker_for(rng, mode, key)
        ctx.count("layouts_seen")
        for n in [0, 1, 2, 3, 9, 10, 12, 99, 100, 101, 130] + [nitems(rng) for _ in range(ctx.n(10))]:
            before, after, defn, num, gtypes = edge(rng, mode, key, n)
            if isinstance(num, int):
                n = num
            partial = 0
            if num == "None":
                partial = rng.choice((0, 0, rng.randrange(len(gtypes))))
                if after and len(after) > len(gtypes) - 1 - partial:
                    partial = 0
                if after and len(after) >= len(gtypes):
                    continue
                if after and partial:
                    after = []
            items = gitems(rng, gtypes, n, partial)
            if after and partial:
                continue
            if num == "None" and partial:  # surplus fields belong to no item
                after2 = [b for b, t in defn[next(i for i, (_, t) in enumerate(defn) if isinstance(t, dict)) + 1:]]
                if after2:  # they would be read as the attributes after the group
                    items, partial = items[:-partial], 0
            fields = before + items + after
            if spec.key_for_fields(mode, msgid, fields)[1] != key:
                continue
            via = route(rng)
            if via == "reader" and not (safe(fields) and talker[0] in spec.HEADERS):
                via = "parse"
            ctx.case("group", talker=talker, msgid=msgid, mode=mode, before=before, items=items, after=after, n=n, defn=defn,
                     key=key, validate=rng.randrange(4), via=via)


parsing2 = parsing


def counts(ctx):
    """The count field says more or fewer than are present, or nothing."""
    rng = ctx.rng
    for mode, key in GROUPED:
        talker, msgid = gen.talker_for(rng, mode, key)
        num = edge(rng, mode, key, 0)[3]
        if num == "None" or isinstance(num, int):
            continue
        for _ in range(ctx.n(60)):
            n, say = nitems(rng), rng.choice((nitems(rng), 0, 1, 200, 5000))
            before, after, defn, num, gtypes = edge(rng, mode, key, say)
            if rng.random() < 0.1:
                before = ["" if b == num else f for (b, _), f in zip(defn, before)]
                say = 0
            partial = rng.randrange(len(gtypes))
            items = gitems(rng, gtypes, n, partial)
            reps = min(say, n + (partial > 0))
            ctx.count("count mismatch")
            ctx.case("group", talker=talker, msgid=msgid, mode=mode, before=before, items=items, after=[], n=n, defn=defn,
                     key=key, validate=rng.randrange(4), reps=reps)
    for mode, key in GROUPED:  # fixed size, fewer present
        talker, msgid = gen.talker_for(rng, mode, key)
        before, after, defn, num, gtypes = edge(rng, mode, key, 0)
        if not isinstance(num, int):
            continue
        for _ in range(ctx.n(15)):
            before, after, defn, num, gtypes = edge(rng, mode, key, 0)
            n = rng.randint(0, num - 1)
            partial = rng.randrange(len(gtypes))
            ctx.count("count mismatch")
            ctx.case("group", talker=talker, msgid=msgid, mode=mode, before=before, items=gitems(rng, gtypes, n, partial),
                     after=[], n=n, defn=defn, key=key, validate=rng.randrange(4), reps=n + (partial > 0))


def case_build(ctx, talker, msgid, mode, key, kw, defn, hp=False, user=False):
    udict = {msgid: spec.to_user(defn)} if user else None
    what = f"{talker}{msgid} mode {mode} {show(kw, 400)}"
    t0 = utc()
    k, m = make(talker, msgid, mode, hpnmeamode=hp, userdefined=udict, **kw)
    t1 = utc()
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m!r}")
    _, *fields = unframe(ctx, m.serialize(), what)
    exp = spec.build(mode, key, kw, hp, defn)
    ctx.check(len(fields) == len(exp), "number of items written", lambda: f"{what}: {fields}: expected {len(exp)} fields")
    for (n, t, e), text in zip(exp, fields):
        ctx.check(spec.text_agrees(e, text, t0, t1), "field text", lambda: f"{what}: {n}: expected {show(e)} got {text!r}")
    ctx.check(list(attrs(m)) == [n for n, _, _ in exp], "attribute names", lambda: f"{what}: {list(attrs(m))}")
    ctx.count("built")
    ctx.count("built items", len(exp))
    k2, p = parse(m.serialize(), mode, 1, udict)
    ctx.check(k2 == "msg", "does not parse back", lambda: f"{what}: {p!r}")
    b = attrs(p)
    ctx.check(list(b) == [n for n, _, _ in exp], "items do not parse back", lambda: f"{what}: {list(b)}")
    for n, t, e in exp:
        if n in kw and t in ("ST", "CH", "IN", "HX"):
            ctx.check(same(b[n], kw[n]), "item does not parse back", lambda: f"{what}: {n}={b[n]!r}")
        elif n in kw and t == "DE":
            ctx.check(b[n] == float(kw[n]), "item does not parse back", lambda: f"{what}: {n}={b[n]!r}")
    top = max((int(x[1]) for x in (re.match(r".*_([0-9]+)\Z", n) for n, _, _ in exp) if x), default=0)
    if top > 99:
        ctx.count("over 99")
    ctx.seen("build", key, top, len(kw), user)


def shuffled(rng, kw):
    names = list(kw)
    rng.shuffle(names)
    return {n: kw[n] for n in names}


def group_kwargs(rng, mode, key, defn, n, density, first=None):
    """Keywords for n items, some left out; the highest item is always given."""
    kw = {}
    for b, t in defn:
        if not isinstance(t, dict):
            if rng.random() < 0.6:
                kw[b] = gen.typed(rng, t)
            continue
        num = t["n"]
        m = num if isinstance(num, int) else n
        for i in range(1, m + 1):
            for b2, t2 in t["items"]:
                if rng.random() < density:
                    kw[name_of(b2, i)] = gen.typed(rng, t2)
        if m and num == "None":
            b2, t2 = rng.choice(t["items"])
            kw[name_of(b2, m)] = gen.typed(rng, t2)
        if isinstance(num, str) and num != "None":
            kw[num] = n
    return shuffled(rng, kw)


def building(ctx):
    rng = ctx.rng
    for mode, key in GROUPED:
        talker, msgid = gen.talker_for(rng, mode, key)
        first = spec.base_id(mode, key)[2]
        for n in [0, 1, 2, 9, 10, 99, 100, 101] + [nitems(rng) for _ in range(ctx.n(4))]:
            density = rng.choice((1.0, 1.0, 0.5, 0.1))
            kw = group_kwargs(rng, mode, key, spec.DEFS[mode][key], n, density)
            if msgid in spec.PREFIX:
                kw["msgId"] = first
            gen.steer(rng, mode, key, kw)
            if density < 1:
                ctx.count("gaps")
            ctx.case("build", talker=talker, msgid=msgid, mode=mode, key=key, kw=kw, defn=spec.DEFS[mode][key], hp=rng.random() < 0.3)


building2 = building
BASES = ["it", "sat_id", "a1", "val_2d", "x_y_z", "g", "Item", "n_", "key", "att", "mode", "pindex"]
PRES = ["gindex", "numr", "attd"]


def group_def(rng, kind, place):
    """A user definition with one group of a kind in some place, and its types."""
    named = rng.random() < 0.2
    items = [[b, rng.choice(("IN", "DE", "ST", "HX", "TM"))] for b in rng.sample(BASES, rng.choice((1, 2, 3, 4, 4, 6, len(BASES))))]
    pre = [[PRES[j] if named else f"pre{j}", rng.choice(("IN", "ST", "DE"))]
           for j in range(rng.randint(1, 3) if place != "first" else 0)]
    num = kind
    if kind == "count":
        pre.append(["cnt_items", "IN"])
        num = "cnt_items"
    elif kind == "fixed":
        num = rng.choice((1, 2, 3, 10, 12, 100, 120))
    # after an open-ended group only what is narrower than an item can be told from one
    most = 3 if kind != "None" else len(items) - 1
    post = [[f"post{j}", rng.choice(("IN", "ST", "DE"))] for j in range(rng.randint(0, most) if place != "last" else 0)]
    return pre + [["grp", {"n": num, "items": items}]] + post, num, items, len(pre), len(post)


def userdefs(ctx):
    rng = ctx.rng
    for i in range(ctx.n(600)):
        kind = ("fixed", "count", "None")[i % 3]
        defn, num, items, npre, npost = group_def(rng, kind, rng.choice(("first", "middle", "last")))
        n = num if kind == "fixed" else nitems(rng)
        if i % 200 == 3:
            n = 1000 if kind != "fixed" else n
        before = [str(n) if b == "cnt_items" else gen.field(rng, t) for b, t in defn[:npre]]
        after = [gen.field(rng, t) for _, t in defn[npre + 1:]]
        partial = rng.randrange(len(items)) if kind == "None" and not npost else 0
        ctx.case("group", talker=rng.choice(("GN", "P", "GP")), msgid=gen.unknown_id(rng), mode=rng.randrange(3), before=before,
                 items=gitems(rng, items, n, partial), after=after, n=n, defn=defn, user=True, validate=rng.randrange(4),
                 via=rng.choice(("parse", "construct")))


def case_two(ctx, msgid, mode, n1, n2, fixed, a, b, tail):
    """Two groups in one message do not run into each other."""
    user = {msgid: {"c1": "IN", "c2": "IN", "g1": (fixed or "c1", {"a": "IN", "b_x": "ST"}), "mid": "DE",
                    "g2": ("c2", {"c": "ST"}), "tail": "IN"}}
    fields = [str(n1), str(n2)] + a + ["2.5"] + b + [tail]
    k, m = parse(spec.frame("GN", msgid, fields), mode, 3, user)
    ctx.check(k == "msg", "not decoded", lambda: f"{fields} {m!r}")
    want = {"c1": n1, "c2": n2}
    for i in range(fixed or n1):
        want[name_of("a", i + 1)] = int(a[2 * i])
        want[name_of("b_x", i + 1)] = a[2 * i + 1]
    want["mid"] = 2.5
    for i in range(n2):
        want[name_of("c", i + 1)] = b[i]
    want["tail"] = int(tail)
    ctx.check(attrs(m) == want and list(attrs(m)) == list(want), "two groups", lambda: f"{fields}: {m}")
    ctx.count("parsed")
    ctx.count("user")
    ctx.seen("two", n1, n2, fixed)
    built = {x: v for x, v in want.items()}
    k, g = make("GN", msgid, mode, userdefined=user, **built)
    ctx.check(k == "msg" and g.payload == fields, "two groups built", lambda: f"{fields}: {g!r}")
    ctx.count("built")


def expand(defn, texts, counts, idx=()):
    """Names, types and texts of a (nested) definition, taking texts from an iterator."""
    for name, typ in defn.items():
        if isinstance(typ, tuple):
            for i in range(1, counts.get(typ[0], typ[0]) + 1):
                yield from expand(typ[1], texts, counts, idx + (i,))
        else:
            yield name + "".join(f"_{i:02d}" for i in idx), typ, texts


def case_nested(ctx, msgid, mode, r1, r2, r3, n, deep, seed):
    """Groups inside groups: one index per level, counts fixed or given by a field."""
    rng = random.Random(seed)
    inner = {"b": "ST", "b2": "IN"}
    if deep:
        inner = {"b": "ST", "third": (r3, {"d": "IN"}), "b2": "IN"}
    user = {msgid: {"h": "ST", "m1": "IN", "m2": "IN", "m3": "IN",
                    "outer": (r1, {"a": "IN", "inner": (r2, inner), "c": "DE"}), "tail": "ST"}}
    counts = {"m1": n[0], "m2": n[1], "m3": n[2]}
    want, fields = {}, []
    for name, typ, _ in expand(user[msgid], None, counts):
        v = counts[name] if name in counts else rng.randint(-99, 999)
        if typ == "ST":
            v = f"t{v}"
        elif typ == "DE":
            v = v / 4
        want[name] = v
        fields.append(str(v))
    k, m = parse(spec.frame("GN", msgid, fields), mode, 3, user)
    ctx.check(k == "msg", "not decoded", lambda: f"{user} {fields} {m!r}")
    ctx.check(attrs(m) == want and list(attrs(m)) == list(want), "nested groups", lambda: f"{user} {fields}: {m}: want {want}")
    ctx.count("parsed")
    k, g = make("GN", msgid, mode, userdefined=user, **want)
    ctx.check(k == "msg" and g.payload == fields and attrs(g) == want, "nested groups built", lambda: f"{user} {want}: {g!r}")
    ctx.count("nested")
    ctx.seen("nested", r1, r2, r3, n, deep)


def nesting(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150)):
        n = [rng.choice((0, 1, 2, 3, 5, 12)) for _ in "123"]
        r1, r2, r3 = (rng.choice((f"m{i}", f"m{i}", rng.choice((1, 2, 3, 11)))) for i in (1, 2, 3))
        ctx.case("nested", msgid=gen.unknown_id(rng), mode=rng.randrange(3), r1=r1, r2=r2, r3=r3, n=n, deep=rng.random() < 0.5,
                 seed=rng.randrange(10**6))


def userbuild(ctx):
    rng = ctx.rng
    for i in range(ctx.n(300)):
        kind = ("fixed", "count", "None")[i % 3]
        defn, num, items, npre, npost = group_def(rng, kind, rng.choice(("first", "middle", "last")))
        n = num if kind == "fixed" else nitems(rng)
        density = rng.choice((1.0, 0.6, 0.2))
        if density < 1:
            ctx.count("gaps")
        kw = group_kwargs(rng, 0, "", defn, n, density)
        ctx.case("build", talker="GN", msgid=gen.unknown_id(rng), mode=rng.randrange(3), key="user", kw=kw, defn=defn, user=True)
    for _ in range(ctx.n(100)):
        n1, n2 = rng.choice((0, 1, 2, 5, 101)), rng.choice((0, 1, 3, 12, 100))
        fixed = rng.choice((0, 0, 3))
        a = [x for _ in range(fixed or n1) for x in (str(rng.randint(0, 99)), gen.text(rng, "plain"))]
        ctx.case("two", msgid=gen.unknown_id(rng), mode=rng.randrange(3), n1=n1, n2=n2, fixed=fixed, a=a,
                 b=[gen.text(rng, "plain") for _ in range(n2)], tail=str(rng.randint(0, 999)))


def case_size(ctx, names, want):
    got = pynmeagps.groupsize(**{n: i for i, n in enumerate(names)}) if hasattr(pynmeagps, "groupsize") else None
    if got is None:
        from pynmeagps.nmeahelpers import groupsize

        got = groupsize(**{n: i for i, n in enumerate(names)})
    ctx.check(got == want, "groupsize", lambda: f"{names}: {got} want {want}")
    ctx.count("groupsize")
    ctx.seen("size", want, len(names))


def sizes(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(800)):
        top = rng.choice((0, 1, 2, 9, 10, 11, 12, 64, 99, 100, 101, 250, rng.randint(0, 300)))
        names = [name_of(rng.choice(BASES), i) for i in range(1, top + 1) if i == top or rng.random() < 0.5]
        names += rng.sample(["lat", "numSV", "x_y", "a_b_c", "msg_id", "val2", "time", "status_flag", "q9z"], rng.randint(0, 4))
        rng.shuffle(names)
        ctx.case("size", names=names, want=top)
