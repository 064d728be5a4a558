"""C30 an interrupt at any moment reaches the caller and leaves everything usable."""

import ast
import io
import os
import random
import sys
import threading

from mon import gen, spec
from mon.checks.c08 import bad_line, valid_sentence
from mon.checks.c13 import digest, forked, operation, perform, user_pool
from mon.core import SRC, show
from mon.lib import ERRS, ByteStream, NMEAReader, parse, snap
from mon.sock import ScriptSocket

PROPERTY = "C30"
RULE = (
    "KeyboardInterrupt, SystemExit or an application's own BaseException raised before the k-th line executed inside the "
    "package, as a signal handler may do between any two steps (not inside the entering and leaving of a with or "
    "finally): every k of short operations, random k of long ones, in a process that has done nothing else (caches "
    "cold) and in one that has; parsing, building, helpers, text forms of a message, readers on files and sockets "
    "interrupted again and again. The very same exception must reach the caller; afterwards the same and other operations "
    "must give what they give uninterrupted, the message and the catalogue be as before, the reader deliver every "
    "sentence but at most one per interrupt, once, intact, in order, and be free for other threads. "
    "Non-trivial: distinct (operation, function and line interrupted)."
)
NEED = {"interrupts": 20000, "cold": 500, "warm": 5000, "on_messages": 2000, "reads_interrupted": 8000, "socket_interrupts": 2000,
        "delivered": 9000, "free": 800}
QUICK = 2
CPU_PER_CASE = 120.0


class Cancelled(BaseException):
    """As frameworks for concurrency have."""


KINDS = {"keyboard": KeyboardInterrupt, "exit": SystemExit, "cancelled": Cancelled}
READER = os.path.join(SRC, "pynmeagps", "nmeareader.py")
_exempt = {}


def exempt(path):
    """Lines on which even the most careful code could not be interrupted without harm."""
    if path not in _exempt:
        out = set()
        try:
            tree = ast.parse(open(path, encoding="utf-8").read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out |= set(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, (ast.Try, ast.TryStar)):
                out.add(n.lineno)
                for part in [n.finalbody] + [h.body for h in n.handlers if h.type is None or "BaseException" in ast.dump(h.type)]:
                    for x in part:
                        out |= set(range(x.lineno - 1, x.end_lineno + 1))
        _exempt[path] = out
    return _exempt[path]


class Interrupt:
    """Raises on the k-th line inside the package (k None: only counts)."""

    def __init__(self, k, kind, within=SRC):
        self.k, self.n, self.where, self.within = k, 0, None, within
        self.exc = KINDS[kind]("stop", k)

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(self.within) else None

    def _line(self, frame, event, arg):
        if event == "line" and frame.f_lineno not in exempt(frame.f_code.co_filename):
            self.n += 1
            if self.n == self.k:
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                raise self.exc
        return self._line

    def run(self, fn, *args):
        """(interrupted?, result or exception that came out)"""
        sys.settrace(self._call)
        try:
            res = fn(*args)
        except BaseException as err:  # noqa
            sys.settrace(None)
            return True, err
        sys.settrace(None)
        return False, res


def lines_of(op):
    i = Interrupt(None, "keyboard")
    i.run(perform, op)
    return i.n


def cold(op, k, kind, others):
    """In a pristine process: interrupted, then what is done afterwards."""
    d0 = digest()
    i = Interrupt(k, kind)
    hit, err = i.run(perform, op)
    after = [perform(o)[0] for o in [op] + others]
    return i.where, hit and err is i.exc, repr(err)[:300] if hit else None, after, digest() == d0


def points(rng, n, most):
    return list(range(1, n + 1)) if n <= most else sorted(rng.sample(range(1, n + 1), most))


def case_cold(ctx, op, others, seed, kind):
    rng = random.Random(seed)
    want = [forked(perform, o)[0] for o in [op] + others]
    n = forked(lines_of, op)
    for k in points(rng, n, 24):
        where, same, err, after, intact = forked(cold, op, k, kind, others)
        if where is None:
            continue
        what = lambda: f"{kind} at {where} of {show(op, 400)}"  # noqa: E731
        ctx.check(same, "the interrupt did not reach the caller", lambda: f"{what()}: {err}")  # noqa: B023
        for o, a, b in zip([op] + others, want, after):
            ctx.check(a == b, "an interrupted operation changes later results",
                      lambda: f"{what()}: then {show(o, 300)}: expected {show(a, 400)} got {show(b, 400)}")  # noqa: B023
        ctx.check(intact, "message catalogue modified", what)
        ctx.count("interrupts")
        ctx.count("cold")
        ctx.seen(op[0], where)


def case_warm(ctx, op, seed, kind):
    rng = random.Random(seed)
    want = perform(op)[0]
    d0 = digest()
    n = lines_of(op)
    for k in points(rng, n, 60):
        i = Interrupt(k, kind)
        hit, err = i.run(perform, op)
        if i.where is None:
            continue
        ctx.check(hit and err is i.exc, "the interrupt did not reach the caller", lambda: f"{kind} at {i.where} of {show(op)}: {err!r}")  # noqa: B023
        ctx.check(perform(op)[0] == want, "an interrupted operation changes later results", lambda: f"{kind} at {i.where} of {show(op)}")  # noqa: B023
        ctx.count("interrupts")
        ctx.count("warm")
        ctx.seen(op[0], i.where)
    ctx.check(digest() == d0, "message catalogue modified", lambda: show(op))


def ops(rng, n):
    users = user_pool(rng)
    return [operation(rng, users) for _ in range(n)]


def once(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(14)):
        a = ops(rng, 5)
        others = a[1:]
        if rng.random() < 0.5 and a[0][0] == "parse":
            o = list(a[0][1])
            others[0] = ["parse", [o[0], rng.randrange(3), rng.randrange(4), o[3]]]
        ctx.case("cold", op=a[0], others=others, seed=rng.randrange(2**32), kind=rng.choice(list(KINDS)))


once2 = once3 = once


def later(ctx):
    rng = ctx.rng
    for op in ops(rng, ctx.n(120)):
        ctx.case("warm", op=op, seed=rng.randrange(2**32), kind=rng.choice(list(KINDS)))


ACTIONS = {
    "str": str, "repr": repr, "serialize": lambda m: m.serialize(), "identity": lambda m: m.identity, "payload": lambda m: m.payload,
    "set": lambda m: setattr(m, "lat", 1), "new": lambda m: setattr(m, "brandnew", 1), "delete": lambda m: delattr(m, "_payload"),
}


def case_message(ctx, raw, mode, kind):
    """A message being looked at, or under attack, when the interrupt comes."""
    k, m = parse(raw, mode, 0)
    if k != "msg":
        return
    before = snap(m)
    for name, fn in ACTIONS.items():
        c = Interrupt(None, kind)
        c.run(fn, m)
        for j in points(ctx.rng, c.n, 30):
            i = Interrupt(j, kind)
            hit, err = i.run(fn, m)
            if i.where is None:
                continue
            ctx.check(hit and err is i.exc, "the interrupt did not reach the caller", lambda: f"{kind} at {i.where} of {name} {raw!r}: {err!r}")  # noqa: B023
            for bad in (lambda: setattr(m, "lat", 1), lambda: setattr(m, "other", 1), lambda: delattr(m, "_mode")):
                try:
                    bad()
                except ERRS:
                    continue
                ctx.check(False, "no longer immutable", lambda: f"{kind} at {i.where} of {name} {raw!r}")  # noqa: B023
            ctx.check(snap(m) == before, "the message was changed", lambda: f"{kind} at {i.where} of {name} {raw!r}")  # noqa: B023
            ctx.count("interrupts")
            ctx.count("on_messages")
            ctx.seen(name, i.where)


def messages(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(60)):
        mode, talker, msgid, fields, ck = gen.sentence(rng, bad=0.02)
        ctx.case("message", raw=spec.frame(talker, msgid, fields, ck), mode=mode, kind=rng.choice(list(KINDS)))


def case_reader(ctx, segs, seed, policy, source, iterate):
    """A reader interrupted again and again."""
    rng = random.Random(seed)
    data = b"".join(b for _, b in segs)
    ok = [b for k, b in segs if k == "ok"]
    bad = sum(k == "bad" for k, b in segs)
    reports = []
    sock = None
    if source == "socket":
        cuts = sorted(rng.sample(range(len(data)), min(len(data) // 2, rng.choice((0, rng.randint(0, 20))))))
        sock = ScriptSocket([data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])])
        st = sock
    else:
        st = {"bytesio": io.BytesIO, "bytes": ByteStream, "buffered": lambda d: io.BufferedReader(io.BytesIO(d), 16)}[source](data)
    try:
        r = NMEAReader(st, quitonerror=policy, errorhandler=reports.append)
        inflight = sock is not None and not sock.done  # an interrupt may lose what is being received
        got, hits, most = [], 0, rng.choice((60, 60, 400))
        step = (lambda: next(r, (None, None))) if iterate else r.read
        for _ in range(20 * len(data) + 100):
            kind = rng.choice(list(KINDS))
            # few enough interrupts for the reading to get on
            i = Interrupt(int(2 ** rng.uniform(0, 8)) if hits < most and rng.random() < 0.7 else None, kind,
                          rng.choice((SRC, READER)))
            hit, res = i.run(step)
            if hit and isinstance(res, ERRS) and policy == 2:
                ctx.check(i.where is None, "the interrupt did not reach the caller", lambda: f"{i.where}: {res!r}")  # noqa: B023
                continue
            if hit:
                ctx.check(res is i.exc, "the interrupt did not reach the caller", lambda: f"{kind} at {i.where}: {res!r}")  # noqa: B023
                hits += 1
                ctx.count("interrupts")
                ctx.count("socket_interrupts" if sock else "reads_interrupted")
                ctx.seen("read", i.where, source, policy)
                continue
            ctx.check(i.where is None, "the interrupt did not reach the caller", lambda: f"{kind} at {i.where}: {res!r}")  # noqa: B023
            if res[0] is None:
                break
            if res[1] is not None:
                got.append(res)
        else:
            ctx.check(False, "end of stream not reached", lambda: show(segs, 1500))
        what = lambda: f"{hits} interrupts {source} policy {policy}: got {show([x for x, _ in got], 900)} of {show(ok, 900)}"  # noqa: E731
        it = iter(ok)
        ctx.check(all(any(raw == x for x in it) for raw, _ in got), "sentences repeated, spoilt or out of order", what)
        if not inflight:
            ctx.check(len(got) >= len(ok) - hits, "sentences lost", what)
        elif not hits:
            ctx.check(len(got) == len(ok), "sentences lost", what)
        for raw, m in got:
            k, d = parse(raw, 0, 1)
            ctx.check(k == "msg" and snap(d) == snap(m), "parsed message differs from direct parsing", lambda: f"{raw!r}: {m}")  # noqa: B023
        ctx.check(len({id(e) for e in reports}) == len(reports) <= bad + (hits if sock else 0), "bad lines reported twice", lambda: f"{what()}: {reports}")
        ctx.count("delivered", len(got))
        # the reader is free for another thread
        out = []
        t = threading.Thread(target=lambda: out.append(r.read()), daemon=True)
        t.start()
        t.join(20)
        ctx.check(out == [(None, None)], "another thread cannot use the reader", what)
        ctx.count("free")
    finally:
        if sock:
            sock.close()


def case_single(ctx, segs, policy, kind, handler, iterate):
    """One interrupt, at every line of the reading of a short stream."""
    data = b"".join(b for _, b in segs)
    ok = [b for k, b in segs if k == "ok"]
    nbad = sum(k == "bad" for k, b in segs)

    def go(r, got):
        while True:
            try:
                res = next(r, (None, None)) if iterate else r.read()
            except ERRS as err:
                got.append((None, err))
                continue
            if res[0] is None:
                return
            got.append(res)

    def reader(reports):
        return NMEAReader(io.BytesIO(data), quitonerror=policy, errorhandler=reports.append if handler else None)
    i = Interrupt(None, kind)
    i.run(go, reader([]), [])
    for k in range(1, i.n + 1):
        reports, got = [], []
        r = reader(reports)
        i = Interrupt(k, kind)
        hit, err = i.run(go, r, got)
        if i.where is None:
            continue
        what = lambda: f"{kind} at {i.where} policy {policy}: {show(got, 900)} of {show(segs, 900)}"  # noqa: E731,B023
        ctx.check(hit and err is i.exc, "the interrupt did not reach the caller", lambda: f"{what()}: {err!r}")  # noqa: B023
        go(r, got)
        raws = [a for a, m in got if m is not None and a]
        it = iter(ok)
        ctx.check(all(any(a == x for x in it) for a in raws), "sentences repeated, spoilt or out of order", what)
        ctx.check(len(raws) >= len(ok) - 1, "sentences lost", what)
        bads = reports + [e for a, e in got if a is None]
        ctx.check(len({id(e) for e in bads}) == len(bads) <= nbad, "bad lines reported twice", what)
        ctx.count("interrupts")
        ctx.count("reads_interrupted")
        ctx.count("delivered", len(raws))
        ctx.seen("single", i.where, policy)


def segments(rng, n):
    segs = []
    for _ in range(n):
        k = rng.random()
        while True:
            x = ("ok", valid_sentence(rng, 0)) if k < 0.6 else ("bad", bad_line(rng, 0)) if k < 0.9 else \
                ("noise", gen.noise(rng)[:40].replace(b"$", b"!"))
            if len(x[1]) < 200 and (x[0] == "noise" or b"$" not in x[1][1:]):
                break
        segs.append(x)
    return segs


def single(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8)):
        for policy in (0, 1, 2):
            ctx.case("single", segs=segments(rng, 4), policy=policy, kind=rng.choice(list(KINDS)), handler=rng.random() < 0.7,
                     iterate=rng.random() < 0.5)


def readers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400)):
        ctx.case("reader", segs=segments(rng, rng.choice((rng.randint(3, 14), rng.randint(3, 14), 60))), seed=rng.randrange(2**32), policy=rng.randrange(3),
                 source=rng.choice(("bytesio", "bytes", "buffered", "socket")), iterate=rng.random() < 0.5)


readers2 = readers


def jobs(tier):
    k = 1 if tier == "quick" else 5
    return [f"{n}#{i}" for i in range(k) for n in ("once", "once2", "once3", "later", "messages", "readers", "readers2", "single")]
