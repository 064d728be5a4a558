"""C13 results depend only on the input: no state leaks between messages."""

import copy
import datetime as dtm
import hashlib
import io
import os
import pickle
import sys
import threading

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.checks.c05 import userdef
from mon.checks.c08 import compose
from mon.core import show
from mon.lib import ERRS, NMEAMessage, NMEAReader, pynmeagps, snap, reader

PROPERTY = "C13"
RULE = (
    "Pools of operations (parse, keyword/payload build, stream read, every helper, static conversions; "
    "valid, failing, user-defined with conflicting definitions of one id, both precisions, all modes and "
    "flags). Each operation is run in a process of its own that has done nothing else; then a random "
    "history of the pool in one process, and by 2-6 threads at once (switch interval 1 us), must give the "
    "same result for every operation; thousands of repetitions of one operation, too, change neither its own "
    "result nor that of others. Digest of the catalogue, keyword dictionaries, payload lists and user "
    "definitions before/after; interleaved readers against lone ones. Non-trivial: distinct (previous "
    "operation kind, operation kind, id) adjacencies."
)
NEED = {"pristine": 2000, "in_history": 20000, "in_threads": 10000, "failing_ops": 500, "helpers": 3000,
        "user_ops": 500, "reader_steps": 2000, "digests": 50, "builds": 500, "repeated": 60000, "repeated_kinds": 40}
QUICK = 5


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k)
            for n in ("histories", "histories2", "histories3", "threaded", "threaded2", "readers", "readers2", "focus", "crossed", "crossed2", "equals", "long", "long2")]


# ---------------------------------------------------------------- operations
def canon(x):
    if isinstance(x, NMEAMessage):
        return ("msg", snap(x))
    if isinstance(x, tuple):
        return tuple(canon(y) for y in x)
    return (type(x).__name__, repr(x))


def perform(op):
    """Run one operation; canonical outcome, plus whether the caller's objects survived."""
    kind, a = op
    keep = None
    try:
        if kind == "parse":
            raw, mode, validate, user = a
            ud = user_of(user) if user else None
            keep = (ud, copy.deepcopy(ud))
            res = canon(NMEAReader.parse(raw, mode, validate, ud))
        elif kind == "build":
            talker, msgid, mode, kw, hp, user = a
            ud = user_of(user) if user else None
            keep = ((kw, ud), copy.deepcopy((kw, ud)))
            res = canon(NMEAMessage(talker, msgid, mode, hpnmeamode=hp, userdefined=ud, **kw))
        elif kind == "payload":
            talker, msgid, mode, fields, validate = a
            keep = (fields, list(fields))
            res = canon(NMEAMessage(talker, msgid, mode, validate=validate, payload=fields))
        elif kind == "read":
            data, mode, policy, user = a
            ud = user_of(user) if user else None
            keep = (ud, copy.deepcopy(ud))
            r = reader(io.BytesIO(data), msgmode=mode, quitonerror=policy, userdefined=ud,
                           errorhandler=lambda e: None)
            res = []
            for _ in range(len(data) + 5):
                try:
                    raw, m = r.read()
                except ERRS as err:
                    res.append((type(err).__name__, str(err)))
                    continue
                if raw is None:
                    break
                res.append((raw, canon(m)))
            res = ("stream",) + tuple(res)
        elif kind == "static":
            name, args = a
            res = canon(getattr(NMEAMessage, name)(*args))
        else:
            name, args, kw = a
            keep = ((args, kw), copy.deepcopy((args, kw)))
            res = canon(getattr(pynmeagps, name)(*args, **kw))
    except Exception as err:
        res = ("raised", type(err).__name__, str(err))
    return res, keep is None or repr(keep[0]) == repr(keep[1])


def catalogue_names():
    out = []
    for name in dir(pynmeagps):
        v = getattr(pynmeagps, name)
        if name[:1] != "_" and isinstance(v, (dict, list, tuple, set, frozenset)):
            if name.startswith("NMEA_") or name in ("LEAPSECONDS", "KNOTSCONV"):
                out.append(name)
    return out


def digest():
    h = hashlib.sha256()
    for name in catalogue_names():
        h.update(name.encode() + repr(getattr(pynmeagps, name)).encode())
    return h.hexdigest()


def forked(fn, *args):
    """Result of fn(*args) computed in a forked copy of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as err:  # noqa
                out = ("exc", repr(err))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked process died")
    k, v = pickle.loads(data)
    if k == "exc":
        raise RuntimeError(v)
    return v


def run_history(ops, order):
    d0 = digest()
    bad = []
    out = []
    for i in order:
        res, intact = perform(ops[i])
        out.append(res)
        if not intact:
            bad.append(i)
    return out, bad, d0 == digest()


def run_threads(ops, orders):
    d0 = digest()
    sys.setswitchinterval(1e-6)
    outs = [None] * len(orders)
    gate = threading.Barrier(len(orders))

    def work(t):
        res = []
        gate.wait(30)
        for i in orders[t]:
            res.append(perform(ops[i]))
        outs[t] = res
    ts = [threading.Thread(target=work, args=(t,)) for t in range(len(orders))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    return outs, d0 == digest()


def describe(ops, order, n):
    return " <- ".join(show(ops[i], 250) for i in reversed(order[max(0, n - 3):n + 1]))


def pristine(ctx, ops):
    out = []
    for op in ops:
        out.append(forked(perform, op)[0])
        ctx.count("pristine")
        if out[-1][0] == "raised":
            ctx.count("failing_ops")
    return out


def case_history(ctx, ops, order):
    want = pristine(ctx, ops)
    got, bad, same = forked(run_history, ops, order)
    for n, (i, g) in enumerate(zip(order, got)):
        ctx.check(g == want[i], "result depends on what was done before",
                  lambda: f"alone {show(want[i], 600)} in history {show(g, 600)}: {describe(ops, order, n)}")
        if n:
            ctx.seen(ops[order[n - 1]][0], ops[i][0], str(ops[i][1])[:20])
    ctx.check(not bad, "caller's objects modified", lambda: show([ops[i] for i in bad[:2]], 800))
    ctx.check(same, "message catalogue modified", lambda: show(ops, 1500))
    ctx.count("digests")
    ctx.count("in_history", len(order))
    for i in order:
        k = ops[i][0]
        if k in ("help", "static"):
            ctx.count("helpers")
        elif k in ("build", "payload"):
            ctx.count("builds")
        if k in ("parse", "read", "build") and ops[i][1][-1]:
            ctx.count("user_ops")
    ctx.sample([(o[0], show(o[1], 60)) for o in ops[:4]])


def case_threads(ctx, ops, orders):
    want = pristine(ctx, ops)
    outs, same = forked(run_threads, ops, orders)
    for order, got in zip(orders, outs):
        ctx.check(got is not None, "thread did not finish")
        for n, (i, (g, intact)) in enumerate(zip(order, got)):
            ctx.check(g == want[i], "result differs when other threads work at the same time",
                      lambda: f"alone {show(want[i], 600)} with threads {show(g, 600)}: {show(ops[i])}")
            ctx.check(intact, "caller's objects modified", lambda: show(ops[i]))
        ctx.count("in_threads", len(order))
    ctx.check(same, "message catalogue modified", lambda: show(ops, 1500))
    ctx.seen("threads", len(orders), str(ops)[:200])


def run_repeated(op, others, n):
    """First repetition whose result differs, if any; then every other operation."""
    first = perform(op)[0]
    kind, a = op
    for i in range(n):
        if perform(op)[0] != first:
            return first, i, []
    return first, None, [perform(o)[0] for o in others]


def case_repeated(ctx, op, others, n):
    want = pristine(ctx, [op] + others)
    first, i, rest = forked(run_repeated, op, others, n)
    ctx.check(i is None, "result depends on what was done before", lambda: f"after {i} repetitions: {show(op, 800)}")
    ctx.check([first] + rest == want, "result depends on what was done before",
              lambda: f"after {n} times {show(op, 800)}: {show([(o, w, g) for o, w, g in zip(others, want[1:], rest) if w != g], 900)}")
    ctx.count("repeated", n)
    ctx.count("repeated_kinds")
    ctx.seen("repeated", op[0], str(op[1])[:60])


# ---------------------------------------------------------------- generators
def timeless(mode, key, kw):
    return all(t not in ("TM", "DT", "DM", "DTL") or n in kw for n, t in spec.flat(spec.DEFS[mode][key]))


def helpers(rng):
    c = lambda t: gen.coord(rng, t)  # noqa: E731
    la, lo = c("LA"), c("LN")
    g = rng.choice("GECJIR")
    d = dtm.datetime(rng.randint(1981, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                     tzinfo=rng.choice((None, dtm.timezone.utc)))
    return (
        ("area", [la, lo, c("LA"), c("LN")], {}),
        ("area", [la, lo, c("LA"), c("LN")], {"radius": 10}),
        ("bearing", [la, lo, c("LA"), c("LN")], {}),
        ("calc_checksum", [gen.text(rng)], {}),
        ("date2str", [gen.adate(rng), rng.choice(("DT", "DM", "DTL"))], {}),
        ("date2utc", [spec.date_text(gen.adate(rng), "DT"), rng.choice(("DT", "DM", "DTL"))], {}),
        ("ddd2dmm", [la, rng.choice(("LA", "LN"))], {"hpmode": rng.random() < 0.5}),
        ("deg2dmm", [lo, rng.choice(("LA", "LN"))], {}),
        ("deg2dms", [lo, rng.choice(("LA", "LN"))], {}),
        ("dmm2ddd", [gen.field(rng, "LA", 0.2)], {}),
        ("dms2deg", [rng.choice(("51°20′45.6″N", "51°30.0′", "junk", "5°W", ""))], {}),
        ("ecef2llh", [rng.uniform(-7e6, 7e6) for _ in range(3)], {}),
        ("ecef2llh", [rng.uniform(-7e6, 7e6) for _ in range(3)], {"a": 6377563.396, "f": 299.3249646}),
        ("llh2ecef", [la, lo, rng.uniform(-1e3, 1e4)], {}),
        ("llh2ecef", [la, lo, rng.uniform(-1e3, 1e4)], {"a": 6377397.155, "f": 299.1528128}),
        ("generate_checksum", ["GN", "GGA", [gen.text(rng), gen.text(rng)]], {}),
        ("get_parts", [spec.frame("GN", "GLL", [gen.text(rng)])], {}),
        ("groupsize", [], {f"a_{rng.randint(1, 40):02d}": 1, "b": 2}),
        ("haversine", [la, lo, c("LA"), c("LN")], {}),
        ("hex2str", [rng.randint(0, 999), rng.choice((0, 4))], {}),
        ("knots2spd", [rng.uniform(0, 99), rng.choice(("MS", "fs", "MPH", "kmph", "xx"))], {}),
        ("latlon2dmm", [la, lo], {}),
        ("latlon2dms", [la, lo], {}),
        ("leapsecond", [d, g], {}),
        ("llh2iso6709", [la, lo, rng.uniform(-99, 9999)], {}),
        ("msgdesc", [rng.choice(("GGA", "UBX00", "XXX"))], {}),
        ("planar", [la, lo, la + 0.001, lo], {}),
        ("time2str", [dtm.time(rng.randint(0, 23), 5, 6, 70000)], {}),
        ("time2utc", [gen.field(rng, "TM", 0.2)], {}),
        ("utc2wnotow", [d, g, rng.random() < 0.5], {}),
        ("wnotow2utc", [rng.randint(0, 2400), rng.randint(0, 604799999)],
         {"gnss": g, "modwno": rng.random() < 0.5, "ls": rng.choice((None, 0, 18))}),
    )


def helper(rng):
    return ["help", list(rng.choice(helpers(rng)))]


def static(rng):
    t = rng.choice(sorted(spec.TYPES) + ["ZZ"])
    k = rng.randrange(3)
    if k == 0 and t not in ("TM", "DT", "DM", "DTL"):
        return ["static", ["nomval", [t, rng.randrange(3)]]]
    if k == 1 and t != "ZZ":
        return ["static", ["val2str", [gen.typed(rng, t), t, rng.random() < 0.5]]]
    return ["static", ["str2val", [gen.field(rng, t if t != "ZZ" else "ST", 0.2), t]]]


def operation(rng, users):
    """An operation, given now and then definitions that may have nothing to do with it."""
    op = operation1(rng, users)
    if users and op[0] in ("parse", "build", "read") and op[1][-1] is None and rng.random() < 0.4:
        op[1][-1] = [[u[0], u[1]] for u in rng.sample(users, rng.randint(1, 3))]
    return op


def operation1(rng, users):
    k = rng.random()
    if k < 0.35:
        mode, talker, msgid, fields, ck = gen.sentence(rng, bad=0.1)
        if rng.random() < 0.15:
            fields = fields[: rng.randint(0, len(fields))]
        if rng.random() < 0.1:
            mode = rng.randrange(3)
        raw = spec.frame(talker, msgid, fields, ck if rng.random() < 0.9 else "00")
        return ["parse", [raw, mode, rng.randrange(4), None]]
    if k < 0.5 and users:
        msgid, defn, fields = rng.choice(users)
        if rng.random() < 0.25:
            return ["read", [spec.frame("GN", msgid, fields) * 2, 0, rng.randrange(3), [[msgid, defn]]]]
        return ["parse", [spec.frame("GN", msgid, fields), rng.randrange(3), rng.randrange(4),
                          rng.choice(([[msgid, defn]], [[msgid, defn]], None))]]
    if k < 0.68:
        mode, key = rng.choice(gen.LAYOUTS)
        talker, msgid = gen.talker_for(rng, mode, key)
        kw = gen.kwargs_for(rng, mode, key, rng.choice((0.5, 1.0, 1.0)), reps=rng.randint(0, 3))
        if spec.key_for_kwargs(mode, msgid, kw) == key and timeless(mode, key, kw):
            return ["build", [talker, msgid, mode, kw, rng.random() < 0.5, None]]
        return ["build", ["GN", "GNS", 7, {}, False, None]]
    if k < 0.75:
        mode, talker, msgid, fields, _ = gen.sentence(rng, bad=0.1)
        return ["payload", [talker, msgid, mode, fields, rng.randrange(4)]]
    if k < 0.8:
        mode = rng.randrange(3)
        data = b"".join(b for _, b in compose(rng, mode, rng.randint(1, 4)))[:3000]
        return ["read", [data, mode, rng.randrange(3), None]]
    return helper(rng) if rng.random() < 0.7 else static(rng)


def user_pool(rng):
    """Conflicting definitions of the same few ids."""
    out = []
    for msgid in (gen.unknown_id(rng), gen.unknown_id(rng), rng.choice(("GGA", "RMC", "UBX00", "QTMVER"))):
        for _ in range(3):
            d, fields = userdef(rng)
            out.append((msgid, d, fields))
    return out


def pool(rng, n):
    users = user_pool(rng)
    return [operation(rng, users) for _ in range(n)]


def histories(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(12)):
        ops = pool(rng, 40)
        order = [rng.randrange(len(ops)) for _ in range(300)]
        ctx.case("history", ops=ops, order=order)


histories2 = histories3 = histories


def focus(ctx):
    """Few closely related operations: one id, several layouts, modes, lengths and values."""
    rng = ctx.rng
    for _ in range(ctx.n(14)):
        ops = []
        fam = rng.choice(["GGA", "GLL", "GSV", "RMC", "GNS", "UBX", "QTMCFGGEOFENCE", "QTMCFGMSGRATE", "QTMSN", "ASHR",
                          "SSN", "TNL", "STM", "FEC", "RLM", "QTMCFGUART"])
        lay = [x for x in gen.LAYOUTS if x[1].startswith(fam)] or gen.LAYOUTS
        for _ in range(30):
            mode, key = rng.choice(lay)
            talker, msgid = gen.talker_for(rng, mode, key)
            if rng.random() < 0.5:
                fields = gen.fields_for(rng, mode, key, 0.05)
                if rng.random() < 0.3:
                    fields = fields[: rng.randint(0, len(fields))]
                ops.append(["parse", [spec.frame(talker, msgid, fields), mode, rng.choice((0, 1, 3)), None]])
            else:
                kw = gen.kwargs_for(rng, mode, key, 1.0, reps=rng.randint(0, 5))
                for n in list(kw):
                    if rng.random() < 0.15 and dict(spec.flat(spec.DEFS[mode][key])).get(n) not in (
                            "TM", "DT", "DM", "DTL"):
                        del kw[n]
                if timeless(mode, key, kw):
                    ops.append(["build", [talker, msgid, mode, kw, rng.random() < 0.5, None]])
        ops.append(helper(rng))
        ctx.case("history", ops=ops, order=[rng.randrange(len(ops)) for _ in range(300)])


def twin(rng, x):
    """An equal (or nearly equal) value of another kind: what a careless cache would confuse."""
    if isinstance(x, list):
        return [twin(rng, y) if rng.random() < 0.4 else y for y in x]
    if isinstance(x, bool):
        return rng.choice((int(x), float(x), not x))
    if isinstance(x, (int, float)):
        return rng.choice((0, 0.0, -0.0, False, 1, 1.0, True, -x, x + 1, int(x), float(x), x + 0.0))
    if isinstance(x, str):
        return rng.choice((x.lower(), x.upper(), x + " ", x[:-1], x.encode() if rng.random() < 0.1 else x))
    if isinstance(x, dtm.datetime):
        return rng.choice((x.replace(tzinfo=None), x.replace(tzinfo=dtm.timezone.utc), x.replace(microsecond=500000),
                           x.replace(year=x.year - 1), x.date()))
    if isinstance(x, dtm.date):
        return dtm.datetime(x.year, x.month, x.day)
    if isinstance(x, dtm.time):
        return rng.choice((x.replace(microsecond=0), x.replace(hour=0)))
    return x


def equals(ctx):
    """Every helper with numbers that are equal but not the same: 1, 1.0 and True; 0, 0.0 and -0.0."""
    rng = ctx.rng
    number = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)  # noqa: E731
    for name, args, kw in helpers(rng):
        ops = []
        for v in (0, 1, None):
            nums = [i for i, x in enumerate(args) if number(x)]
            base = [x if i not in nums else float(int(x)) if v is None else v for i, x in enumerate(args)]
            for form in (float, int, lambda x: bool(x) if x in (0, 1) else x, lambda x: -0.0 if x == 0 else x):
                ops.append(["help", [name, [form(x) if i in nums else x for i, x in enumerate(base)], kw]])
                j = rng.choice(nums) if nums else -1
                ops.append(["help", [name, [form(x) if i == j else x for i, x in enumerate(base)], kw]])
        if name == "groupsize":
            continue
        ctx.case("history", ops=ops, order=[rng.randrange(len(ops)) for _ in range(120)])


def crossed(ctx):
    """The same operation over and over with arguments exchanged one at a time."""
    rng = ctx.rng
    for _ in range(ctx.n(10)):
        k = rng.randrange(4)
        ops = []
        if k < 2:
            first = helper(rng) if k else static(rng)
            same = [first]
            for _ in range(400):
                o = helper(rng) if k else static(rng)
                if o[1][0] == first[1][0] and len(o[1][1]) == len(first[1][1]):
                    same.append(o)
                    if len(same) == 4:
                        break
            for _ in range(30):
                args = [rng.choice(same)[1][1][i] for i in range(len(first[1][1]))]
                if args and rng.random() < 0.4:
                    i = rng.randrange(len(args))
                    args[i] = twin(rng, args[i])
                kw = [dict(rng.choice(same)[1][2])] if k else []
                for n in list(kw[0]) if kw else ():
                    if rng.random() < 0.2:
                        del kw[0][n]
                o = [first[0], [first[1][0], args] + kw]
                if first[1][0] == "nomval" and args[0] in ("TM", "DT", "DM", "DTL"):
                    continue
                ops.append(o)
        else:
            users = user_pool(rng)
            base = []
            while len(base) < 3:
                mode, key = rng.choice(gen.LAYOUTS)
                talker, msgid = gen.talker_for(rng, mode, key)
                base.append([mode, talker, msgid, gen.fields_for(rng, mode, key, 0.05, reps=rng.randint(0, 3))])
            for _ in range(30):
                mode, talker, msgid, fields = rng.choice(base)
                if rng.random() < 0.3:
                    mode = rng.randrange(3)
                if talker != "P" and rng.random() < 0.4:
                    talker = rng.choice(gen.STDTALK)
                if rng.random() < 0.3:
                    fields = rng.choice(base)[3]
                if fields and rng.random() < 0.3:
                    fields = fields[:rng.randint(1, len(fields))]
                u = rng.choice(users)
                user = rng.choice((None, None, [[msgid, u[1]]], [[u[0], u[1]]]))
                if k == 2:
                    ops.append(["parse", [spec.frame(talker, msgid, fields, rng.choice((None, None, "00"))), mode,
                                          rng.randrange(4), user]])
                else:
                    ops.append(["payload", [talker, msgid, mode, list(fields), rng.randrange(4)]])
        if ops:
            ctx.case("history", ops=ops, order=[rng.randrange(len(ops)) for _ in range(300)])


crossed2 = crossed


def long(ctx):
    """One operation thousands of times: limits on anything counted or kept show up."""
    rng = ctx.rng
    k = int(ctx.job.startswith("long2"))
    users = user_pool(rng)
    good = spec.frame("GN", "GLL", gen.fields_for(rng, 0, "GLL"))
    unk = gen.unknown_id(rng)
    u = users[0]
    ops = [
        ["parse", [good, 0, 1, None]],
        ["parse", [good[:-4] + b"ZZ\r\n", 0, 1, None]],  # wrong checksum
        ["parse", [good[:-5] + b"\r\n", 0, rng.randrange(4), None]],  # cannot be split
        ["parse", [b"$GNGLL,1\r\n", 0, 0, None]],
        ["parse", [b"$\xff\xfe\r\n", 0, 2, None]],
        ["parse", [spec.frame("GN", unk, ["1", "x"]), 0, 1, None]],
        ["parse", [spec.frame("GN", unk, ["1", "x"]), 0, 3, None]],
        ["parse", [spec.frame("XX", "GLL", ["1"]), 0, 3, None]],
        ["parse", [spec.frame("GN", "GSV", ["a", "b", "c"]), 0, 1, None]],  # cannot be converted
        ["parse", [spec.frame("P", "UBX", ["99", "1"]), rng.randrange(3), rng.randrange(4), None]],
        ["parse", [spec.frame("GN", u[0], u[2]), 0, 1, [[u[0], u[1]]]]],
        ["parse", [good, 5, 1, None]],
        ["read", [good + b"$GNGLL,1*00\r\n" + good + b"$XX", 0, 0, None]],
        ["read", [good + b"$GNGLL,1*00\r\n" + good + b"$XX", 0, 1, None]],
        ["read", [good + b"$GNGLL,1*00\r\n" + good + b"$GN", 0, 2, None]],
        ["build", ["GN", "GLL", 0, {"lat": 1.5, "lon": -3, "time": dtm.time(1, 2, 3)}, True, None]],
        ["build", ["GN", "GLL", 7, {}, False, None]],
        ["build", ["P", "UBX", 0, {}, False, None]],
        ["build", ["GN", "GLL", 0, {"lat": "x", "time": dtm.time(1, 2, 3)}, False, None]],
        ["build", ["GN", "GSV", 0, {f"svid_{i:02d}": i for i in range(1, 5)} | {"numMsg": 1}, False, None]],
        ["payload", ["GN", "GSA", 0, gen.fields_for(rng, 0, "GSA"), 1]],
        ["payload", ["GN", unk, 0, ["1", "2"], 1]],
    ] + [["help", list(h)] for h in helpers(rng)] + [static(rng) for _ in range(4)]
    for op in ops[k::2]:
        slow = op[0] == "read"
        ctx.case("repeated", op=op, others=rng.sample(ops, 6), n=ctx.n(100 if slow else 300, 20000))


long2 = long


def threaded(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(10)):
        ops = pool(rng, 30)
        n = rng.randint(2, 6)
        orders = [[rng.randrange(len(ops)) for _ in range(200)] for _ in range(n)]
        ctx.case("threads", ops=ops, orders=orders)


threaded2 = threaded


# ---------------------------------------------------------------- readers side by side
def mk(cfg):
    data, mode, validate, policy, nmeaonly, user, log = cfg
    return reader(io.BytesIO(data), msgmode=mode, validate=validate, quitonerror=policy, nmeaonly=nmeaonly,
                      userdefined=user_of(user) if user else None,
                      errorhandler=lambda e: log.append((type(e).__name__, str(e))))


def step(r, log):
    n = len(log)
    try:
        raw, m = r.read()
        out = (raw, canon(m))
    except ERRS as err:
        out = ("raised", type(err).__name__, str(err))
    return out, tuple(log[n:])


def alone(cfg, n):
    log = []
    r = mk(cfg + [log])
    return [step(r, log) for _ in range(n)]


def together(cfgs, order):
    logs = [[] for _ in cfgs]
    rs = [mk(c + [log]) for c, log in zip(cfgs, logs)]
    return [step(rs[i], logs[i]) for i in order]


def case_readers(ctx, cfgs, order):
    want = [iter(forked(alone, c, order.count(i))) for i, c in enumerate(cfgs)]
    got = forked(together, cfgs, order)
    for i, g in zip(order, got):
        w = next(want[i])
        ctx.check(w == g, "reader influenced by another reader",
                  lambda: f"alone {show(w, 600)} together {show(g, 600)}: {show(cfgs, 1500)}")
        ctx.count("reader_steps")
    ctx.seen([c[1:5] for c in cfgs], order[:20])


def readers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(60)):
        users = user_pool(rng)
        cfgs = []
        base = compose(rng, 0, 6)
        for _ in range(rng.randint(2, 4)):
            mode = rng.randrange(3)
            segs = base if rng.random() < 0.4 else compose(rng, mode, rng.randint(2, 8))
            data = b""
            for _, b in segs:
                data += b
                if rng.random() < 0.3:
                    u = rng.choice(users)
                    data += b"\r\n" + spec.frame("GN", u[0], u[2])
            u = rng.choice(users)
            cfgs.append([data, mode, rng.randrange(4), rng.randrange(3), rng.random() < 0.3,
                         rng.choice((None, [[u[0], u[1]]]))])
        order = [rng.randrange(len(cfgs)) for _ in range(40)]
        ctx.case("readers", cfgs=cfgs, order=order)


readers2 = readers
