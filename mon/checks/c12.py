"""C12 messages are immutable once built."""

import decimal
import copy
import datetime as dtm
import io

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.checks.c05 import userdef
from mon.checks.c08 import decodable
from mon.core import show
from mon.lib import NMEAMessageError, attrs, make, parse, snap, reader

PROPERTY = "C12"
RULE = (
    "Messages of every layout, mode and route (parsed, read from a stream, built from keywords, built from a "
    "payload list, NOMINAL, user-defined). On each: assign and delete every public, private and property "
    "name, method names and new names, repeatedly and in random order, each under a before/after snapshot; "
    "then mutate every object passed in (payload list, nested user definition, raw buffer, keyword dict) or "
    "got out (payload list, attribute dict copies). Non-trivial: distinct (layout, route, kind of name)."
)
NEED = {"attempts": 100000, "aliasing": 5000, "routes_parse": 500, "routes_read": 500, "routes_kwargs": 500,
        "routes_payload": 500, "userdefined": 300, "layouts": 640}
QUICK = 8
FROZEN = (str, decimal.Decimal, int, float, dtm.date, dtm.time, bytes, type(None), bool)
FRESH = ["foo", "lat", "time", "field_01", "field_99", "_x", "__x", "svid_01", "x y", "é", "_immutable_", "msgId",
         "serialize", "parse", "str2val", "__class__", "__dict__", "__doc__", "__module__"]
PROPS = ["identity", "talker", "msgID", "msgmode", "payload", "checksum"]


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k) for n in ("layouts", "layouts2", "aliases", "aliases2", "users", "unknowns")]


def attempts(ctx, m, rng, what, n=None):
    before = snap(m)
    names = list(vars(m)) + PROPS + FRESH
    rng.shuffle(names)
    for name in names[:n] if n else names:
        had = hasattr(m, name)
        for op in ("set", "set2", "del"):
            try:
                if op == "set":
                    setattr(m, name, rng.choice((None, 0, "x", False, [], 1.5)))
                elif op == "set2":
                    setattr(m, name, getattr(m, name, ""))
                else:
                    delattr(m, name)
            except NMEAMessageError:
                pass
            except Exception as err:
                ctx.check(False, "attribute change raises something else than a message error",
                          lambda: f"{what} {op} {name}: {err!r}")
            else:
                ctx.check(False, "attribute change accepted", lambda: f"{what} {op} {name}")
            ctx.count("attempts")
        ctx.check(hasattr(m, name) == had, "attribute added or removed", lambda: f"{what} {name}")
    ctx.check(snap(m) == before, "message changed", lambda: f"{what}: {before} -> {snap(m)}")
    for name, v in attrs(m).items():
        ctx.check(isinstance(v, FROZEN), "mutable attribute value", lambda: f"{what} {name}: {type(v)}")


def case_attempts(ctx, route, talker, msgid, mode, fields, kw, user, seed):
    import random as _r

    rng = _r.Random(seed)
    what = f"{route} {talker}{msgid} {mode} {show(fields)} {show(kw)}"
    ud = user_of([[msgid, user]]) if user else None
    def get(flags):
        if route == "parse":
            return parse(spec.frame(talker, msgid, fields), mode, flags, ud)
        if route == "read":
            return "msg", reader(io.BytesIO(spec.frame(talker, msgid, fields)), msgmode=mode, validate=flags,
                                 userdefined=ud, errorhandler=lambda e: None).read()[1]
        more = dict(hpnmeamode=hp, validate=flags)
        if check is not None:
            more["checksum"] = check
        if route == "payload":
            return make(talker, msgid, mode, payload=list(fields), userdefined=ud, **more)
        return make(talker, msgid, mode, **more, **kw)

    flags, hp, check = rng.randrange(4), rng.random() < 0.4, rng.choice((None, None, "00", "A1"))
    k, m = get(flags)
    if flags & 2 and (k != "msg" or m is None):  # refused by message id validation
        flags &= 1
        k, m = get(flags)
    what += f" flags {flags} hp {hp} checksum {check}"
    ctx.count(f"flags {flags}")
    ctx.check(k == "msg" and m is not None, "not built", lambda: f"{what}: {m}")
    ctx.count("routes_" + route)
    attempts(ctx, m, rng, what)
    # using the message does not unlock it
    m.serialize(), str(m), repr(m), m.payload, m.identity  # noqa
    copy.copy(m)
    attempts(ctx, m, rng, what, 6)
    ctx.seen(route, mode, m.identity, len(fields or ()))


def case_alias(ctx, talker, msgid, mode, fields, user, seed, validate):
    """Mutate everything that went in or came out."""
    import random as _r

    rng = _r.Random(seed)
    what = f"{talker}{msgid} {mode} {show(fields)} user {show(user)}"
    raw = spec.frame(talker, msgid, fields)
    udef = user_of([[msgid, user]]) if user else None
    plist = list(fields)
    kw = {"payload": plist}
    msgs = []
    k, m = make(talker, msgid, mode, userdefined=udef, validate=validate, **kw)
    ctx.check(k == "msg", "not built", lambda: f"{what}: {m}")
    msgs.append(m)
    k, m = parse(raw, mode, 1, udef)
    ctx.check(k == "msg", "not parsed", lambda: f"{what}: {m}")
    msgs.append(m)
    rd = reader(io.BytesIO(raw + raw), msgmode=mode, userdefined=udef)
    msgs.append(rd.read()[1])
    before = [snap(m) for m in msgs]
    # objects passed in
    ctx.check(plist == fields, "payload list modified", lambda: what)
    mutate(rng, plist)
    kw.clear()
    if udef:
        ctx.check(same_def(udef, user_of([[msgid, user]])), "user definition modified", lambda: what)
        wreck(rng, udef)
    # objects got out
    for m in msgs:
        for _ in range(3):
            mutate(rng, m.payload)
        d = attrs(m)
        d.clear()
    after = [snap(m) for m in msgs]
    ctx.check(after == before, "message changed through an alias", lambda: f"{what}: {before} -> {after}")
    for m in msgs:
        ctx.check(m.payload == fields, "payload changed through an alias", lambda: what)
    ctx.check(msgs[0].payload is not msgs[0].payload or isinstance(msgs[0].payload, tuple), "payload handed out shared")
    ctx.count("aliasing")
    if user:
        ctx.count("userdefined")
    ctx.seen("alias", mode, msgid, len(fields))


def same_def(a, b):
    """Equal including order."""
    return repr(a) == repr(b)


def mutate(rng, lst):
    if not isinstance(lst, list):
        return
    k = rng.randrange(6)
    if k == 0:
        lst.clear()
    elif k == 1:
        lst.append("zz")
    elif k == 2:
        lst.insert(0, "99")
    elif k == 3:
        lst.reverse()
        lst.append("q")
    elif k == 4 and lst:
        lst[rng.randrange(len(lst))] = "changed"
    else:
        lst[:] = ["1"] * (len(lst) + 1)


def wreck(rng, d):
    """Deeply mutate a user definition."""
    for k in list(d):
        v = d[k]
        if isinstance(v, tuple):
            wreck(rng, v[1])
        elif isinstance(v, dict):
            wreck(rng, v)
            if rng.random() < 0.5:
                v.clear()
        elif rng.random() < 0.5:
            d[k] = "QQ"
        else:
            del d[k]
    d["added"] = "IN"


def layouts(ctx):
    rng = ctx.rng
    lay = gen.LAYOUTS
    for i in range(ctx.n(450)):
        mode, key = lay[i % len(lay)] if i < len(lay) else rng.choice(lay)
        talker, msgid = gen.talker_for(rng, mode, key)
        route = rng.choice(("parse", "read", "payload", "kwargs"))
        fields = kw = None
        if route == "kwargs":
            kw = gen.kwargs_for(rng, mode, key, rng.choice((0.0, 0.5, 1.0)), reps=rng.randint(0, 4))
            if spec.key_for_kwargs(mode, msgid, kw) is None or not kw and not spec.DEFS[mode][key] or key.startswith("ASHR"):
                continue
        else:
            fields = gen.fields_for(rng, mode, key, reps=rng.randint(0, 4))
            if not decodable(mode, talker, msgid, fields):
                continue
        ctx.count("layouts")
        ctx.case("attempts", route=route, talker=talker, msgid=msgid, mode=mode, fields=fields, kw=kw, user=None,
                 seed=rng.randrange(10**9))


layouts2 = layouts


def aliases(ctx):
    rng = ctx.rng
    for i in range(ctx.n(1200)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(rng, mode, key)
        fields = gen.fields_for(rng, mode, key)
        if decodable(mode, talker, msgid, fields):
            ctx.case("alias", talker=talker, msgid=msgid, mode=mode, fields=fields, user=None,
                     seed=rng.randrange(10**9), validate=rng.choice((0, 1)))


aliases2 = aliases


def users(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(600)):
        defn, fields = userdef(rng)
        msgid = gen.unknown_id(rng)
        try:
            exp = spec.decode_with(spec.from_user(user_of([[msgid, defn]])[msgid]), fields)
        except spec.TypeErr:
            continue
        if any(e[0] == "any" for _, e in exp):
            continue
        a = dict(talker="GN", msgid=msgid, mode=rng.randrange(3), fields=fields, user=defn, seed=rng.randrange(10**9))
        ctx.case("alias", validate=rng.choice((0, 1)), **a)
        ctx.case("attempts", route=rng.choice(("parse", "read", "payload")), kw=None, **a)


def unknowns(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(600)):
        a = dict(talker=rng.choice(("GN", "P", "GP")), msgid=gen.unknown_id(rng), mode=rng.randrange(3),
                 fields=[gen.text(rng) for _ in range(rng.randint(0, 12))], user=None, seed=rng.randrange(10**9))
        ctx.case("alias", validate=rng.choice((0, 1)), **a)
        ctx.case("attempts", route=rng.choice(("parse", "read", "payload")), kw=None, **a)
