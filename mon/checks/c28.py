"""C28 messages and errors survive copying and transfer to another process unchanged."""

import copy
import os
import pickle
import queue
import subprocess
import sys
import threading

from mon import gen, spec
from mon.checks.c02 import hostile, user_of
from mon.checks.c05 import userdef
from mon.checks.c08 import bad_line
from mon.core import SRC, VERIF, show
from mon.lib import ERRS, NMEAMessage, NMEAMessageError, errname, make, parse, snap

PROPERTY = "C28"
RULE = (
    "Messages of every layout and mode, parsed and built (high precision, user definitions, unknown ids, groups, "
    "cut off and hostile fields, wrong checksums with validation off), and error objects, are copied (copy, deepcopy, "
    "within containers), pickled (every protocol) and unpickled here, in a forked child and in a fresh interpreter, and "
    "handed through queues to threads; the snapshot (attributes, types, order, text, repr, bytes, identity, mode) of the "
    "copy must equal that of the original, the original be untouched, and the copy as immutable. "
    "Non-trivial: distinct (layout or id, mode, origin, number of attributes)."
)
NEED = {"copied": 9000, "pickled": 10000, "errors": 2000, "elsewhere": 2000, "child": 20, "threads": 20, "immutable": 15000, "layouts_seen": 600}
QUICK = 3
CPU_PER_CASE = 120.0


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return [f"{n}#{i}" for i in range(k) for n in ("layouts", "mixed", "errors", "fresh", "children", "handed")]


def message(spec_):
    """A message from its recipe."""
    kind, a = spec_
    if kind == "parse":
        raw, mode, validate, user = a
        return parse(raw, mode, validate, user_of(user) if user is not None else None)
    if kind == "payload":
        talker, msgid, mode, fields, hp = a
        return make(talker, msgid, mode, payload=list(fields), hpnmeamode=hp)
    talker, msgid, mode, kw, hp = a
    return make(talker, msgid, mode, hpnmeamode=hp, **kw)


def frozen(ctx, c, what):
    """The copy is as immutable as any message."""
    before = snap(c)
    for name in ("lat", "_payload", "_immutable", "brandnew", next(iter(vars(c)), "x")):
        for fn in (lambda: setattr(c, name, 1), lambda: delattr(c, name)):
            try:
                fn()
            except NMEAMessageError:
                continue
            ctx.check(False, "the copy is not immutable", lambda: f"{what}: {name}")
    c.payload.append("x")
    ctx.check(snap(c) == before, "the copy was changed", lambda: what)
    ctx.count("immutable")


def alike(ctx, m, c, before, what):
    ctx.check(type(c) is type(m), "a copy of another type", lambda: f"{what}: {type(c)}")
    got = snap(c)
    ctx.check(got == before, "the copy differs", lambda: f"{what}: {show([(a, b) for a, b in zip(before, got) if a != b], 800)}")


def case_copies(ctx, recipe):
    k, m = message(recipe)
    if k != "msg":
        return
    what = show(recipe)
    before = snap(m)
    ctx.check(m == m and len({m: 1, m: 2}) == 1, "not usable as a key", what)
    for how, c in (("copy", copy.copy(m)), ("deepcopy", copy.deepcopy(m)), ("in a list", copy.deepcopy([m, (m,)])[1][0]),
                   ("in a dictionary", copy.copy({"a": m})["a"]), ("of a copy", copy.copy(copy.deepcopy(m)))):
        alike(ctx, m, c, before, f"{how}: {what}")
        if how != "in a dictionary":
            frozen(ctx, c, f"{how}: {what}")
        ctx.count("copied")
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        c = pickle.loads(pickle.dumps(m, proto))
        alike(ctx, m, c, before, f"pickle {proto}: {what}")
        if proto in (0, 2, pickle.HIGHEST_PROTOCOL):
            frozen(ctx, c, f"pickle {proto}: {what}")
        ctx.count("pickled")
    # several at once keep who is who
    a, b = pickle.loads(pickle.dumps([m, m]))
    ctx.check(a is b, "one message became two", what)
    del a, b, c
    ctx.check(snap(m) == before, "the original was changed", what)
    frozen(ctx, m, what)
    ctx.seen(recipe[0], m.identity, m.msgmode, len(vars(m)))
    ctx.sample((str(m)[:100],))


def describe(e):
    return errname(e), str(e), [errname(x) if isinstance(x, Exception) else repr(x) for x in e.args]


def case_error(ctx, recipe):
    k, e = message(recipe)
    if k != "err":
        return
    what = show(recipe)
    before = describe(e)
    for c in [copy.copy(e), copy.deepcopy(e)] + [pickle.loads(pickle.dumps(e, i)) for i in range(pickle.HIGHEST_PROTOCOL + 1)]:
        ctx.check(type(c) is type(e) and isinstance(c, ERRS), "an error of another type", lambda: f"{what}: {c!r}")
        ctx.check(describe(c) == before, "the error differs", lambda: f"{what}: {describe(c)} {before}")
    ctx.check(describe(e) == before, "the original was changed", what)
    ctx.count("errors")
    ctx.seen("error", errname(e), str(e)[:40])


def recipe(rng, key=None):
    k = rng.randrange(10)
    if key is None and k == 0:  # user definitions
        msgid = gen.unknown_id(rng)
        d, fields = userdef(rng)
        return "parse", (spec.frame("GN", msgid, fields), 0, rng.randrange(4), [[msgid, d]])
    mode, key = key or rng.choice(gen.LAYOUTS)
    talker, msgid = gen.talker_for(rng, mode, key)
    if k < 3:
        return "build", (talker, msgid, mode, gen.kwargs_for(rng, mode, key, reps=rng.randint(0, 3)), rng.random() < 0.5)
    fields = gen.fields_for(rng, mode, key)
    if rng.random() < 0.02:
        fields += [gen.text(rng) for _ in range(rng.randint(50, 600))]
    if k < 5:
        return "payload", (talker, msgid, mode, fields, rng.random() < 0.5)
    if k < 7:
        fields = fields[:rng.randint(0, len(fields))] if k == 5 else fields + [gen.text(rng)]
    return "parse", (spec.frame(talker, msgid, fields), mode, rng.choice((0, 1, 1, 3)), None)


def any_recipe(rng):
    if rng.random() < 0.5:
        return recipe(rng)
    mode, talker, msgid, fields, ck = gen.sentence(rng, bad=0.1, unknown=0.4)
    if rng.random() < 0.3:
        fields = [hostile(rng).replace("\r", "").replace("\n", "") if rng.random() < 0.3 else f for f in fields]
    return "parse", (spec.frame(talker, msgid, fields, ck), mode, rng.randrange(4), None)


def layouts(ctx):
    seen = set()
    for _ in range(ctx.n(1)):
        for key in gen.LAYOUTS:
            seen.add(key)
            ctx.case("copies", recipe=recipe(ctx.rng, key))
    ctx.count("layouts_seen", len(seen))


def mixed(ctx):
    for _ in range(ctx.n(500)):
        ctx.case("copies", recipe=any_recipe(ctx.rng))


def errors(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400)):
        ctx.case("error", recipe=("parse", (bad_line(rng, 0), 0, rng.choice((1, 3)), None)))
        ctx.case("error", recipe=("build", (rng.choice(("GN", "P", "ZZ")), gen.unknown_id(rng), rng.choice((0, 3)), {"validate": 3}, False)))
        ctx.case("error", recipe=("payload", ("GN", "GGA", 0, ["xx", "1", "N", "2", "E", "bad"], False)))
    for mode in (-1, 3, 4):
        ctx.case("error", recipe=("parse", (b"$GNTXT,1*00\r\n", mode, 1, None)))


CHILD = """
import pickle, sys
sys.path[:0] = [%r, %r]
from pynmeagps import NMEAMessageError
from mon.lib import snap
out = []
for c in pickle.load(sys.stdin.buffer):
    loose = []
    for name in ("lat", "_payload", "new"):
        for fn in (setattr, lambda o, n, v: delattr(o, n)):
            try:
                fn(c, name, 1)
                loose.append(name)
            except NMEAMessageError:
                pass
    out.append((snap(c), loose, pickle.dumps(c)))
sys.stdout.buffer.write(pickle.dumps(out))
"""


def case_fresh(ctx, recipes, proto):
    """Messages pickled here and unpickled by an interpreter that has parsed nothing."""
    ms = [m for k, m in map(message, recipes) if k == "msg"]
    before = [snap(m) for m in ms]
    r = subprocess.run([sys.executable, "-B", "-c", CHILD % (SRC, VERIF)], input=pickle.dumps(ms, proto), capture_output=True,
                       timeout=200, env={**os.environ, "VERIF_REPO": os.path.dirname(SRC)})
    ctx.check(r.returncode == 0, "a fresh process cannot take the messages", lambda: r.stderr[-600:].decode("utf-8", "replace"))
    got = pickle.loads(r.stdout)
    ctx.check(len(got) == len(ms), "messages lost")
    for m, b, (s, loose, back) in zip(ms, before, got):
        ctx.check(s == b, "the copy in another process differs", lambda: show([(x, y) for x, y in zip(b, s) if x != y], 800))
        ctx.check(not loose, "the copy in another process is not immutable", lambda: repr(loose))
        alike(ctx, m, pickle.loads(back), b, "there and back")
        ctx.count("elsewhere")
    ctx.seen("fresh", len(ms), proto)


def fresh(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2)):
        ctx.case("fresh", recipes=[any_recipe(rng) for _ in range(600)], proto=rng.randint(0, pickle.HIGHEST_PROTOCOL))


def case_child(ctx, recipes):
    """A child process parses, the parent receives, as worker processes do."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            ms = [message(x) for x in recipes]
            with os.fdopen(w, "wb") as f:
                pickle.dump([(k, m, snap(m) if k == "msg" else describe(m) if k == "err" else None) for k, m in ms], f)
        except BaseException as err:
            sys.stderr.write(repr(err))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ctx.check(data, "a child process cannot send its messages")
    for k, c, s in pickle.loads(data):
        if k == "msg":
            ctx.check(snap(c) == s, "the message received differs", lambda: f"{show(s)} {show(snap(c))}")
            frozen(ctx, c, "received")
            ctx.count("elsewhere")
        elif k == "err":
            ctx.check(describe(c) == tuple(s), "the error received differs", lambda: f"{s} {describe(c)}")
            ctx.count("errors")
    ctx.count("child")
    ctx.seen("child", len(recipes), recipes[0])


def children(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(10)):
        ctx.case("child", recipes=[any_recipe(rng) for _ in range(rng.randint(1, 60))])


def case_handed(ctx, recipes, workers):
    """Messages made by one thread, copied by others at the same time."""
    q, out = queue.Queue(), queue.Queue()

    def work():
        while True:
            item = q.get()
            if item is None:
                return
            i, m = item
            try:
                out.put((i, [snap(x) for x in (m, copy.copy(m), copy.deepcopy(m), pickle.loads(pickle.dumps(m)))]))
            except Exception as err:
                out.put((i, err))
    ts = [threading.Thread(target=work, daemon=True) for _ in range(workers)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        ms = [m for k, m in map(message, recipes) if k == "msg"]
        before = [snap(m) for m in ms]
        for item in enumerate(ms):
            for _ in range(2):
                q.put(item)
        for t in ts:
            q.put(None)
        for t in ts:
            t.join(100)
    finally:
        sys.setswitchinterval(old)
    ctx.check(out.qsize() == 2 * len(ms), "a thread did not finish", lambda: f"{out.qsize()} of {2 * len(ms)}")
    while not out.empty():
        i, got = out.get()
        ctx.check(isinstance(got, list) and all(s == before[i] for s in got), "the copy made in a thread differs",
                  lambda: f"{show(before[i])} {show(got, 800)}")
    ctx.count("threads")
    ctx.seen("threads", len(recipes), workers)


def handed(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(10)):
        ctx.case("handed", recipes=[any_recipe(rng) for _ in range(rng.randint(5, 40))], workers=rng.randint(2, 6))
