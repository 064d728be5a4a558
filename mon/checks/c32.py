"""C32 every error tells what is wrong, where, and the same through every channel."""

import logging
import re

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.checks.c21 import recognised
from mon.core import show
from mon.lib import errname, make, message, parse, plain, stream_of, reader, READER
from pynmeagps import NMEAReader

PROPERTY = "C32"
RULE = (
    "Every layout in every mode with each of its convertible fields made impossible in turn (one, or two at once), plain "
    "and in repeating groups, user definitions included; wrong keyword values in building; wrong checksums of every kind; "
    "unknown talkers, ids, sub-ids and modes; unsplittable sentences; sentences cut anywhere by the end of the stream; "
    "foreign headers; assignments to messages: each error's text is searched for the facts it must tell, and the "
    "same sentence goes through direct parsing, a raising reader, an error handler and the log. Non-trivial: distinct "
    "(kind of error, layout or id, field, channel)."
)
NEED = {"type errors": 6000, "of a group": 500, "two at once": 1200, "layouts": 400, "built wrong": 8000, "without sub-id": 500,
        "checksum": 7000, "unknown talker": 2000, "unknown id": 4000, "unknown sub-id": 1800, "undefined in mode": 3000,
        "unsplittable": 4000, "cut": 4000, "foreign": 3000, "bad modes": 1000, "immutable": 900, "by raise": 20000,
        "by handler": 20000, "by log": 20000, "user types": 500, "user groups": 800, "user fields": 300}
QUICK = 10
# with which the sentences of known talkers start
HEADERS = {("$" + t[0]).encode() for t in spec.CAT["talkers"]} | {b"$P"}
MODES = ("GET", "SET", "POLL")
IMPOSSIBLE = {  # other kinds of field read as blank when they make no sense
    "IN": ("abc", "1.5", "12x", "--", "7 8", "M"),
    "DE": ("abc", "1..2", "12x", "1.2.3", "M", "--1"),
}
FAULTS = {e.__name__: e for e in (TypeError, ValueError, AttributeError, ArithmeticError)}


class Textless:
    """A value that cannot be written as text."""

    def __init__(self, fault):
        self.fault = FAULTS[fault]

    def __str__(self):
        raise self.fault("no text")



def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in
            ("types", "types2", "types3", "checksums", "unknown", "unsplittable", "cuts", "foreign", "building", "userdefs", "others")]


def tells(text, *facts):
    """Each fact (or one of its alternative forms) stands in the text as a word of its own."""
    for f in facts:
        for alt in f if isinstance(f, (tuple, set, list)) else (f,):
            if re.search(r"(?<![0-9A-Za-z_])" + re.escape(alt) + r"(?![0-9A-Za-z_])", text):
                break
        else:
            return False
    return True


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


def channels(ctx, err, raw, mode, validate, user, what):
    """The same sentence reported by a reader in its three ways tells the same."""
    if raw[:2] not in HEADERS:
        return
    pad = [b"", b"\x01\x02", b"noise"][ctx.evaluations % 3]
    for how in ("raise", "handler", "log"):
        seen = []
        log = Log()
        lg = logging.getLogger("pynmeagps")
        kw = dict(msgmode=mode, validate=validate, userdefined=user)
        if how == "raise":
            r = reader(stream_of(pad + raw), quitonerror=2, **kw)
            try:
                out = r.read()
                seen.append(out)
            except Exception as e:  # pylint: disable=broad-except
                seen.append(e)
        elif how == "handler":
            reader(stream_of(pad + raw), quitonerror=1, errorhandler=seen.append, **kw).read()
        else:
            lg.addHandler(log)
            try:
                reader(stream_of(pad + raw), quitonerror=1, **kw).read()
            finally:
                lg.removeHandler(log)
            seen = log.records
        ctx.check(len(seen) == 1, "not reported once", lambda: f"{what} by {how}: {show(seen)}")
        got = seen[0]
        if how == "log":
            ctx.check(got.levelno == logging.ERROR, "not logged as an error", lambda: f"{what}: {got.levelname}")
            ctx.check(str(err) in got.getMessage(), "log does not tell the error",
                      lambda: f"{what}: {got.getMessage()!r} instead of {str(err)!r}")
        else:
            ctx.check(type(got) is type(err) and str(got) == str(err), "error differs by channel",
                      lambda: f"{what} by {how}: {got!r} instead of {err!r}")
            ctx.check(type(got.__cause__) is type(err.__cause__) and str(got.__cause__) == str(err.__cause__), "cause differs by channel",
                      lambda: f"{what} by {how}: {got.__cause__!r} instead of {err.__cause__!r}")
        ctx.count("by " + how)


def first_impossible(mode, msgid, fields, user):
    """Name of the first attribute that cannot be converted: (group or own name, item name, full name)."""
    src, key = spec.key_for_fields(mode, msgid, fields, user)
    if src == "none" or key is None:
        return None
    defn = spec.from_user(user[msgid]) if src == "user" else spec.DEFS[mode][key]
    groups = {n2: name for name, t in defn if isinstance(t, dict) for n2, _ in t["items"]}
    for name, typ, text in spec.walk(defn, fields):
        try:
            if text not in IMPOSSIBLE.get(typ, ()):
                spec.value(text, typ)
                continue
            raise spec.TypeErr
        except spec.TypeErr:
            base = name.rsplit("_", 1)[0]
            if base in groups and all(name != n for n, _ in defn):
                return {groups[base], base, name}
            return {name}
    return None


def case_type(ctx, mode, talker, msgid, fields, validate, user=None, ck=None):
    """A field that cannot be converted: which attribute of which message."""
    user = user and user_of(user)
    names = first_impossible(mode, msgid, fields, user)
    if names is None:
        return
    if validate & 2 and not recognised(talker, msgid, fields, mode, user):
        return
    raw = spec.frame(talker, msgid, fields, ck=ck)
    what = f"{raw!r} mode {mode}"
    k, err = parse(raw, mode, validate, user)
    if k != "err":
        return  # C15 decides what is impossible
    ctx.check(errname(err) == "NMEATypeError", "class of a conversion error", lambda: f"{what}: {err!r}")
    ctx.check(tells(str(err), names), "attribute not told", lambda: f"{what}: {err} should tell one of {names}")
    ctx.check(msgid in str(err), "message not told", lambda: f"{what}: {err} should tell {msgid}")
    ctx.check(isinstance(err.__cause__, Exception), "cause lost", lambda: f"{what}: {err!r} has cause {err.__cause__!r}")
    channels(ctx, err, raw, mode, validate, user, what)
    ctx.count("type errors")
    if len(names) > 1:
        ctx.count("of a group")
    ctx.seen("type", msgid, mode, sorted(names)[0], user is not None)
    ctx.sample((raw, str(err)))


def broken(rng, mode, key, fields, many):
    """Indices of convertible fields of a sentence, and it with some made impossible."""
    out = []
    spots = [(i, t) for i, (_, t, _) in enumerate(spec.walk(spec.DEFS[mode][key], fields)) if t in IMPOSSIBLE]
    rng.shuffle(spots)
    for i, t in spots[:many]:
        f = list(fields)
        f[i] = rng.choice(IMPOSSIBLE[t])
        out.append((f, 1))
        if len(spots) > 1 and rng.random() < 0.3:
            j, u = rng.choice([s for s in spots if s[0] != i])
            f = list(f)
            f[j] = rng.choice(IMPOSSIBLE[u])
            out.append((f, 2))
    return out


def types(ctx):
    rng = ctx.rng
    part = {"types": 0, "types2": 1, "types3": 2}[ctx.job.split("#")[0]]
    lay = [x for i, x in enumerate(gen.LAYOUTS) if i % 3 == part]
    for _ in range(ctx.n(1)):
        for mode, key in lay:
            talker, msgid = gen.talker_for(rng, mode, key)
            fields = gen.fields_for(rng, mode, key, reps=rng.choice((1, 2, 3, 3, 11)))
            was = False
            for f, n in broken(rng, mode, key, fields, 4):
                validate = rng.choice((0, 1, 1, 2, 3))
                case_args = dict(mode=mode, talker=talker, msgid=msgid, fields=f, validate=validate)
                if rng.random() < 0.2:
                    case_args["ck"] = spec.cks(spec.content(talker, msgid, f)).lower()
                ctx.case("type", **case_args)
                was = True
                if n == 2:
                    ctx.count("two at once")
            if was and _ == 0:
                ctx.count("layouts")


types2 = types3 = types


def case_userdef(ctx, d, spots, broken_at, mode, talker, validate):
    """The first field that cannot be converted of a user-defined message with several groups."""
    user = user_of([["XUSR", d]])
    fields = [t for _, t in spots]
    raw = spec.frame(talker, "XUSR", fields)
    what = f"{raw!r} {d}"
    names = spots[min(broken_at)][0]
    k, err = parse(raw, mode, validate, user)
    ctx.check(k == "err" and errname(err) == "NMEATypeError", "class of a conversion error", lambda: f"{what}: {k} {err!r}")
    ctx.check(tells(str(err), names), "attribute not told", lambda: f"{what}: {err} should tell one of {names}")
    ctx.check("XUSR" in str(err), "message not told", lambda: f"{what}: {err}")
    ctx.check(isinstance(err.__cause__, ValueError), "cause lost", lambda: f"{what}: {err!r}")
    channels(ctx, err, raw, mode, validate, user, what)
    ctx.count("user groups" if len(names) > 1 else "user fields")
    ctx.seen("userdef", str(d), min(broken_at))


def defined(rng):
    """A definition with up to three groups (often alike) and fields: ([names], text)."""
    d, spots = [], []
    shape = [(rng.choice("pqr") + str(j), rng.choice(("IN", "DE", "ST"))) for j in range(rng.randint(1, 3))]
    for g in range(rng.randint(1, 3)):
        for j in range(rng.randint(0, 2)):
            t = rng.choice(("IN", "DE", "ST", "TM", "LA"))
            d.append([f"a{g}{j}", t])
            spots.append(([f"a{g}{j}"], gen.field(rng, t)))
        items = list(shape)
        if rng.random() < 0.4:
            items = [(rng.choice("uvw") + str(j), rng.choice(("IN", "DE", "ST"))) for j in range(rng.randint(1, 3))]
        n = rng.randint(1, 3)
        num = n
        if rng.random() < 0.4:
            num = f"n{g}"
            d.append([num, "IN"])
            spots.append(([num], str(n)))
        d.append([f"g{g}", [num, [list(x) for x in items]]])
        for i in range(1, n + 1):
            for x, t in items:
                spots.append(([f"g{g}", f"{x}_{i:02d}"], gen.field(rng, t)))
    if rng.random() < 0.5:
        d.append(["z", "ST"])
        spots.append((["z"], "end"))
    return d, spots


def userdefs(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(300)):
        d, spots = defined(rng)
        kinds = {}
        for n, t in d:
            for m, u in ([(n, t)] if not isinstance(t, list) else [((n, x), y) for x, y in t[1]]):
                kinds[m] = u
        can = [i for i, (ns, _) in enumerate(spots)
               if kinds[ns[0] if len(ns) == 1 else (ns[0], ns[1].rsplit("_", 1)[0])] in IMPOSSIBLE]
        if not can:
            continue
        at = rng.sample(can, min(len(can), rng.choice((1, 1, 1, 2))))
        spots = [(ns, rng.choice(IMPOSSIBLE["IN"]) if i in at else t) for i, (ns, t) in enumerate(spots)]
        spots = [(ns, "abc" if i in at and t == "1.5" else t) for i, (ns, t) in enumerate(spots)]
        ctx.case("userdef", d=d, spots=spots, broken_at=at, mode=rng.choice((0, 1, 2)), talker=rng.choice(gen.STDTALK), validate=rng.choice((0, 1, 3)))


def case_usertype(ctx, attr, typ, n, group, mode, fields, talker):
    """A type that does not exist is named."""
    name = attr
    d = {f"a{i}": "ST" for i in range(n)}
    if group:
        d["grp"] = ("None", {name: typ})
    else:
        d[name] = typ
    user = {"XUSR": d}
    raw = spec.frame(talker, "XUSR", fields)
    k, err = parse(raw, mode, 1, user)
    what = f"{raw!r} {d}"
    ctx.check(k == "err" and errname(err) == "NMEATypeError", "type that does not exist not refused", lambda: f"{what}: {k} {err!r}")
    ctx.check(tells(str(err), typ), "type not told", lambda: f"{what}: {err}")
    channels(ctx, err, raw, mode, 1, user, what)
    ctx.count("user types")
    ctx.seen("usertype", typ, group, mode)


def case_checksum(ctx, mode, talker, msgid, fields, ck, validate, term):
    """A wrong checksum: which message, the one carried and the one it should be."""
    raw = spec.frame(talker, msgid, fields, ck=ck, term=term)
    right = spec.cks(spec.content(talker, msgid, fields))
    what = repr(raw)
    k, err = parse(raw, mode, validate)
    ctx.check(k == "err", "wrong checksum accepted", what)
    ctx.check(errname(err) == "NMEAParseError", "class of a checksum error", lambda: f"{what}: {err!r}")
    s = str(err)
    ctx.check(talker + msgid in s, "message not told", lambda: f"{what}: {s}")
    ctx.check(right in s.replace(talker + msgid, "", 1), "right checksum not told", lambda: f"{what}: {s} should tell {right}")
    if ck.isalnum() and ck.isascii():
        ctx.check(tells(s.replace(talker + msgid, "", 1), (ck, ck.upper(), ck.lower())), "carried checksum not told", lambda: f"{what}: {s}")
    if term.endswith(b"\n"):
        channels(ctx, err, raw, mode, validate, None, what)
    ctx.count("checksum")
    ctx.seen("checksum", msgid, mode, len(ck), validate)
    ctx.sample((raw, s))


def checksums(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(1800)):
        mode, talker, msgid, fields, ck = gen.sentence(rng, bad=0.2, unknown=0.1)
        if any("\n" in f or "*" in f or "\r" in f for f in fields):
            continue
        right = ck.upper()
        ck = rng.choice((f"{rng.randrange(256):02X}", f"{rng.randrange(256):02x}", right[0] + rng.choice("0123456789ABCDEF"),
                         rng.choice("0123456789ABCDEF") + right[1], right[::-1], right + "0", right[0], "", "ZZ", right + "*" + right,
                         f"{int(right, 16) ^ (1 << rng.randrange(8)):02X}"))
        if ck.upper() == right:
            continue
        ctx.case("checksum", mode=mode, talker=talker, msgid=msgid, fields=fields, ck=ck, validate=rng.choice((1, 1, 3)),
                 term=rng.choice((b"\r\n", b"\r\n", b"\n", b"")))


def case_unknown(ctx, mode, talker, msgid, fields, validate, route):
    """Unknown talker, id, sub-id, or id without definition in this mode."""
    src, key = spec.key_for_fields(mode, msgid, fields, None)
    what = f"{talker} {msgid} {fields} mode {mode} {route}"
    raw = spec.frame(talker, msgid, fields)
    if route == "construct":
        k, err = make(talker, msgid, mode, payload=fields, validate=validate)
    else:
        k, err = parse(raw, mode, validate)
    ctx.check(k == "err", "unrecognised message accepted", lambda: f"{what}: {err}")
    s = str(err)
    if talker not in spec.CAT["talkers"]:
        ctx.check(tells(s, (talker, talker + msgid)), "unknown talker not told", lambda: f"{what}: {s}")
        ctx.count("unknown talker")
    else:
        who = {msgid, msgid.upper(), talker + msgid}
        if msgid in spec.PREFIX and fields:  # the sub-id is what is not known
            who = {msgid + fields[0], (msgid + fields[0]).upper(), talker + msgid + fields[0]}
            ctx.count("unknown sub-id")
        ctx.check(tells(s, who), "unknown id not told", lambda: f"{what}: {s} should tell one of {who}")
        ctx.check(tells(s, MODES[mode]), "mode not told", lambda: f"{what}: {s} should tell {MODES[mode]}")
        ctx.count("unknown id" if src == "none" else "undefined in mode")
    if route != "construct":
        channels(ctx, err, raw, mode, validate, None, what)
    ctx.seen("unknown", src, msgid if src != "none" else "", mode, route, talker in spec.CAT["talkers"])
    ctx.sample((raw, s))


def unknown(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2600)):
        k = rng.randrange(5)
        mode = rng.choice((0, 1, 2))
        talker = rng.choice(gen.STDTALK)
        fields = [str(rng.randint(0, 99)) for _ in range(rng.randint(1, 6))]
        if k == 0:
            while talker in spec.CAT["talkers"]:
                talker = "".join(rng.choice(gen.PLAIN + "ABCDEFGHé-") for _ in range(2))
                if talker[0] == "P":
                    talker = rng.choice(("gn", "Gn", "gP", "Gp"))
            msgid = rng.choice(sorted(spec.STD))
        elif k in (1, 2):
            msgid = gen.unknown_id(rng)
            if len(msgid) < 3:
                continue
            talker = rng.choice((talker, talker, "P"))
        elif k == 3:
            talker, msgid = "P", rng.choice(sorted(spec.PREFIX))
            fields[0] = rng.choice(("77", "ZZ", "99", "0", "x1"))
            if msgid == "ASHR" and fields[0][1:2].isdigit():
                continue
        else:
            msgid = rng.choice(sorted(set(spec.STD) | set(spec.PROP)))
            talker = "P" if msgid in spec.PROP else talker
            if len(msgid) < 3 or msgid in spec.PREFIX:
                continue
        if recognised(talker, msgid, fields, mode, None):
            continue
        if k == 4 and spec.key_for_fields(mode, msgid, fields, None)[1] is None and msgid == "STMDRSENMSG":
            continue  # its sub-id is a field of its own
        ctx.case("unknown", mode=mode, talker=talker, msgid=msgid, fields=fields, validate=rng.choice((2, 3)),
                 route=rng.choice(("parse", "parse", "construct")))


def case_unsplittable(ctx, raw, validate):
    """A sentence that cannot be taken apart is shown."""
    k, err = parse(raw, 0, validate)
    ctx.check(k == "err" and errname(err) == "NMEAParseError", "unsplittable sentence not refused", lambda: f"{raw!r}: {k} {err!r}")
    runs = re.findall(rb"[A-Za-z0-9]{3,}", raw)
    s = str(err)
    for r in runs:
        ctx.check(r.decode() in s, "sentence not shown", lambda: f"{raw!r}: {s}")
    if raw[-1:] == b"\n":
        channels(ctx, err, raw, 0, validate, None, repr(raw))
    ctx.count("unsplittable")
    ctx.seen("unsplittable", len(raw), len(runs))


def unsplittable(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(900)):
        mode, talker, msgid, fields, ck = gen.sentence(rng, bad=0.2, unknown=0.1)
        good = spec.frame(talker, msgid, fields, ck)
        body = good[:-2]
        k = rng.randrange(3)
        if k == 0:
            raw = body.replace(b"*", rng.choice((b"", b"x", b"+")))
        elif k == 1:
            if rng.random() < 0.3:
                body += rng.choice((b"tail", b",11*ABC", b"*xyz0"))
            i = rng.randrange(3, len(body) + 1)
            raw = body[:i] + rng.choice((b"\xff", b"\x80", b"\xc3\x28", b"\xed\xa0\x80")) + body[i:]
        else:
            raw = body.split(b"*")[0]
        raw = raw.replace(b"\n", b"").replace(b"\r", b"") + rng.choice((b"\r\n", b"\n", b""))
        if spec.raw_ok(raw) is not None:
            continue
        ctx.case("unsplittable", raw=raw, validate=rng.choice((2, 3)))


def case_cut(ctx, good, last, how, validate):
    """The stream ends inside a sentence: how much of it had come."""
    seen = []
    if how == "raise":
        r = reader(stream_of(good + last), validate=validate, quitonerror=2)
    else:
        r = reader(stream_of(good + last), validate=validate, quitonerror=1, errorhandler=seen.append)
    for _ in range(20):
        try:
            if r.read() == (None, None):
                break
        except Exception as e:  # pylint: disable=broad-except
            seen.append(e)
    ctx.check(len(seen) == 1 and errname(seen[0]) == "NMEAStreamError", "cut sentence not reported", lambda: f"{good + last!r}: {seen!r}")
    s = str(seen[0])
    ctx.check(tells(s, (str(len(last)), str(len(last) - 2))), "bytes that came not told",
              lambda: f"{last!r}: {s} should tell {len(last) - 2}")
    ctx.count("cut")
    ctx.seen("cut", len(last), how, bool(good))


def cuts(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(60)):
        mode, talker, msgid, fields, ck = gen.sentence(rng, modes=(0,), unknown=0.1)
        whole = spec.frame(talker, msgid, fields, ck)
        if b"\n" in whole[:-1]:
            continue
        good = b"" if rng.random() < 0.5 else spec.frame("GN", "GLL", ["5327.04319", "S", "00214.41396", "E", "223232.00", "A", "A"])
        for i in rng.sample(range(3, len(whole)), min(16, len(whole) - 3)):
            ctx.case("cut", good=good, last=whole[:i], how=rng.choice(("raise", "handler")), validate=rng.choice((0, 1, 3)))


def case_foreign(ctx, head, tail, how):
    """Something that is not NMEA where only NMEA is wanted: its header."""
    seen = []
    kw = dict(nmeaonly=True, validate=1)
    if how == "raise":
        r = reader(stream_of(head + tail), quitonerror=2, **kw)
        try:
            r.read()
        except Exception as e:  # pylint: disable=broad-except
            seen.append(e)
    else:
        r = reader(stream_of(head + tail), quitonerror=1, errorhandler=seen.append, **kw)
        while r.read() != (None, None):
            pass
    ctx.check(seen and errname(seen[0]) == "NMEAParseError", "foreign header not reported", lambda: f"{head + tail!r}: {seen!r}")
    s = str(seen[0])
    ctx.check(repr(head)[2:-1] in s or head.hex() in s or head.hex(" ") in s, "header not told", lambda: f"{head!r}: {s}")
    ctx.count("foreign")
    ctx.seen("foreign", head, how)


def foreign(ctx):
    rng = ctx.rng
    good = spec.frame("GN", "GLL", ["5327.04319", "S", "00214.41396", "E", "223232.00", "A", "A"])
    for _ in range(ctx.n(3)):
        for b in range(256):
            head = b"$" + bytes([b])
            if head in HEADERS or b == 0x24:
                continue
            ctx.case("foreign", head=head, tail=bytes(rng.randrange(37, 256) for _ in range(rng.randint(1, 5))) + good,
                     how=rng.choice(("raise", "handler")))


def case_built(ctx, mode, key, kw, attr, wrong, hp):
    """A wrong value given in building: which attribute of which message."""
    name = attr
    talker, msgid, _ = spec.base_id(mode, key)
    talker = talker or "GN"
    if make(talker, msgid, mode, hpnmeamode=hp, **kw)[0] != "msg":
        return
    k, err = make(talker, msgid, mode, hpnmeamode=hp, **{**kw, name: Textless(wrong)})
    ctx.check(k == "err" and errname(err) == "NMEATypeError", "value without text not refused", lambda: f"{msgid} {name}: {k} {err!r}")
    base = name.rsplit("_", 1)[0]
    names = {name} | {n for n, t in spec.DEFS[mode][key] if isinstance(t, dict) and any(x == base for x, _ in t["items"])}
    what = f"{talker} {msgid} mode {mode} {name}={wrong!r}"
    ctx.check(tells(str(err), names | {base}), "attribute not told", lambda: f"{what}: {err}")
    ctx.check(msgid in str(err), "message not told", lambda: f"{what}: {err}")
    ctx.check(isinstance(err.__cause__, Exception), "cause lost", lambda: f"{what}: {err!r}")
    ctx.count("built wrong")
    ctx.seen("built", msgid, mode, name)


def building(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3)):
        for mode, key in gen.LAYOUTS:
            kw = gen.kwargs_for(rng, mode, key, p=rng.choice((0.0, 0.5, 1.0)), reps=3)
            if spec.key_for_kwargs(mode, spec.base_id(mode, key)[1], kw) != key:
                continue
            flat = []
            for n, t in spec.DEFS[mode][key]:
                if isinstance(t, dict):
                    for i in range(1, 4):
                        flat += [(f"{x}_{i:02d}", y) for x, y in t["items"]]
                else:
                    flat.append((n, t))
            spots = [n for n, t in flat if t in ("IN", "DE", "ST", "CH", "HX") and n in kw and n not in ("msgId", "msgtype")
                     and not any(isinstance(t2, dict) and t2["n"] == n for _, t2 in spec.DEFS[mode][key])]
            rng.shuffle(spots)
            for n in spots[:3]:
                w = rng.choice(sorted(FAULTS))
                ctx.case("built", mode=mode, key=key, kw=kw, attr=n, wrong=w, hp=rng.random() < 0.3)


def case_noid(ctx, mode, msgid, kw):
    """Without its sub-id a message of these families cannot be built; the family is told."""
    k, err = make("P", msgid, mode, **kw)
    ctx.check(k == "err" and errname(err) == "NMEAMessageError", "built without sub-id", lambda: f"{msgid} {kw}: {k} {err!r}")
    ctx.check(tells(str(err), (msgid, "P" + msgid)), "message not told", lambda: f"{msgid} {kw}: {err}")
    ctx.count("without sub-id")
    ctx.seen("noid", msgid, mode, sorted(kw))


def case_badmode(ctx, mode, how):
    """A mode that does not exist is told."""
    raw = spec.frame("GN", "GLL", ["", "", "", "", "", "", ""])
    try:
        if how == "parse":
            out = NMEAReader.parse(raw, msgmode=mode)
        elif how == "reader":
            out = plain(NMEAReader, [stream_of(raw)], READER, dict(msgmode=mode))
        else:
            out = message("GN", "GLL", mode)
    except Exception as e:  # pylint: disable=broad-except
        ctx.check(errname(e) == ("NMEAMessageError" if how == "build" else "NMEAParseError"), "class of a bad mode", lambda: f"{how} {mode!r}: {e!r}")
        ctx.check(str(mode) in str(e), "mode not told", lambda: f"{how} {mode!r}: {e}")
    else:
        ctx.check(False, "bad mode accepted", lambda: f"{how} {mode!r}: {out!r}")
    ctx.count("bad modes")
    ctx.seen("badmode", str(mode), how)


def case_immutable(ctx, mode, talker, msgid, fields, attr, delete):
    """An assignment to a message: which attribute."""
    name = attr
    k, m = parse(spec.frame(talker, msgid, fields), mode, 1)
    if k != "msg":
        return
    try:
        if delete:
            delattr(m, name)
        else:
            setattr(m, name, 1)
    except Exception as e:  # pylint: disable=broad-except
        ctx.check(errname(e) == "NMEAMessageError", "class of an assignment", lambda: f"{m!r} {name}: {e!r}")
        ctx.check(tells(str(e), name), "attribute not told", lambda: f"{m!r} {name}: {e}")
    else:
        ctx.check(False, "assigned", lambda: f"{m!r} {name}")
    ctx.count("immutable")
    ctx.seen("immutable", msgid, name, delete)


def others(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(80)):
        for how in ("parse", "reader", "build"):
            ctx.case("badmode", mode=rng.choice((3, 4, -1, 5, 17, 99, rng.randint(3, 10**6), -rng.randint(1, 999))), how=how)
    for _ in range(ctx.n(20)):
        for msgid in sorted(spec.PREFIX):
            ctx.case("noid", mode=rng.choice((0, 1, 2)), msgid=msgid, kw=rng.choice(({}, {"lat": 1.5}, {"numSV": 2})))
    for _ in range(ctx.n(220)):
        mode, talker, msgid, fields, _ = gen.sentence(rng, unknown=0.1)
        key = spec.key_for_fields(mode, msgid, fields)[1]
        names = [n for n, _, _ in spec.walk(spec.DEFS[mode][key], fields)] if key else []
        ctx.case("immutable", mode=mode, talker=talker, msgid=msgid, fields=fields,
                 attr=rng.choice(names + ["payload", "identity", "newone", "_payload", "_checksum"][:None if rng.random() < 0.5 else 3]),
                 delete=rng.random() < 0.3)
    for _ in range(ctx.n(120)):
        n = rng.randint(0, 3)
        typ = rng.choice(("Z2", "U1", "XX", "INT", "FL", "Q9"))
        ctx.case("usertype", attr="val", typ=typ, n=n, group=rng.random() < 0.3, mode=rng.choice((0, 1, 2)),
                 fields=[str(rng.randint(0, 9)) for _ in range(n + rng.randint(1, 3))], talker=rng.choice(gen.STDTALK))
    for _ in range(ctx.n(60)):
        d = [["t", "TM"], ["a", "ST"], ["la", "LA"], ["NS", "LAD"], ["x", "DE"], ["n", "IN"], ["g", ["n", [["p", "DE"], ["q", "DT"]]]]]
        fields = ["101112", "z", "5327.1", "N", "1.5", "2", "1.0", "010203", "2.0", "040506"]
        i = rng.choice((0, 2, 4, 5, 6, 7, 8, 9))
        fields[i] = "bogus"
        ctx.case("type", mode=rng.choice((0, 1, 2)), talker=rng.choice(gen.STDTALK), msgid="XUSR", fields=fields, validate=rng.choice((1, 3)),
                 user=[["XUSR", d]])
