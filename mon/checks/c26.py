"""C26 nothing accumulates: long use retains no memory, objects, descriptors, threads or handlers."""

import collections
import gc
import io
import itertools
import logging
import os
import threading
import tracemalloc
import weakref

from mon import gen, sock, spec
from mon.checks.c05 import userdef
from mon.checks.c08 import bad_line, valid_sentence
from mon.checks.c13 import helper, static
from mon.lib import ERRS, NMEAMessage, NMEAReader, parse, pynmeagps

PROPERTY = "C26"
RULE = (
    "One activity repeated thousands of times with ever new inputs (parsing, failing parses, user definitions, "
    "building, str/repr/serialize, endless stream under each policy, new readers, sockets plain and chunked, "
    "helpers, short-lived threads), results dropped at once. Traced memory, tracked objects, open descriptors, threads, log handlers "
    "and children are measured after a warm-up and again after many more repetitions: growth per repetition "
    "must be nil. Bursts of things held at once and dropped must leave nothing either. Weak references show dropped messages are gone. Non-trivial: distinct (activity, sample number)."
)
NEED = {"operations": 50000, "measurements": 20, "messages_freed": 10000, "streamed": 10000, "held": 20000, "bursts": 12, "gone in the end": 1500}
QUICK = 1
WARM, STEP = 2500, 3000
CPU_PER_CASE = 400.0

ACTIVITIES = ("parsing", "unknown", "failing", "users", "building", "texts", "stream0", "stream1", "stream2", "logged",
              "readers", "sockets", "chunked", "helpers", "noise", "threads")


def jobs(tier):
    return ["bursts#0"] + [f"go_{a}#0" for a in ACTIVITIES]


def one(rng, k, keep):
    """An endless supply of operations; each drops what it made."""
    if k == "parsing":
        while True:
            mode, talker, msgid, fields, ck = gen.sentence(rng)
            o, m = parse(spec.frame(talker, msgid, fields + [str(rng.random())], ck), mode, rng.randrange(4))
            if o == "msg":
                keep(m)
            yield
    if k == "unknown":
        for n in itertools.count():
            talker = rng.choice(("GN", "P", "Q%X" % (n % 15), chr(0x4e00 + n % 20000) + "Z"))
            raw = spec.frame(talker, "Z%X" % rng.randrange(10**12), [str(rng.random()), "x%d" % n])
            for v in (0, 1, 2, 3):
                o, m = parse(raw, n % 3, v)
                if o == "msg":
                    keep(m)
                    str(m), m.serialize()
            yield
    if k == "failing":
        while True:
            for raw in (bad_line(rng, 0), rng.randbytes(30), b"$GNTXT,%d*00\r\n" % rng.randrange(10**9)):
                parse(raw, rng.randrange(3), rng.randrange(4))
            for kw in ({"lat": object()}, {"msgId": "zz"}):
                try:
                    NMEAMessage("P", rng.choice(("UBX", "Q" + str(rng.random()))), 3, **kw)
                except ERRS:
                    pass
                except Exception:  # whatever it is, it is dropped
                    pass
            yield
    if k == "users":
        from mon.checks.c02 import user_of
        while True:
            msgid = gen.unknown_id(rng) + str(rng.randrange(10**9))
            d, fields = userdef(rng)
            o, m = parse(spec.frame("GN", msgid, fields), 0, rng.randrange(4), user_of([[msgid, d]]))
            if o == "msg":
                keep(m)
            yield
    if k == "building":
        while True:
            mode, key = rng.choice(gen.LAYOUTS)
            talker, msgid = gen.talker_for(rng, mode, key)
            try:
                keep(NMEAMessage(talker, msgid, mode, hpnmeamode=rng.random() < 0.5,
                                 **gen.kwargs_for(rng, mode, key, reps=rng.randint(0, 3))))
                keep(NMEAMessage(talker, msgid, mode, payload=gen.fields_for(rng, mode, key, reps=1)))
            except ERRS:
                pass
            yield
    if k == "texts":
        while True:
            mode, talker, msgid, fields, ck = gen.sentence(rng)
            o, m = parse(spec.frame(talker, msgid, fields, ck), mode)
            if o == "msg":
                str(m), repr(m), m.serialize(), m.payload, m.identity
                for fn in (lambda: setattr(m, "x", 1), lambda: delattr(m, "y")):
                    try:
                        fn()
                    except ERRS:
                        pass
                keep(m)
            yield
    if k in ("stream0", "stream1", "stream2", "logged", "noise"):
        policy = {"stream0": 0, "stream2": 2}.get(k, 1)

        class Endless:
            buf = io.BytesIO()

            def more(self):
                parts = []
                for _ in range(20):
                    if k == "noise":
                        parts += [gen.noise(rng), gen.noise(rng)]
                        if parts[-1][-1:] == b"$" or parts[-2][-1:] == b"$":
                            parts.append(b" ")
                    if rng.random() < (0.9 if k == "logged" else 0.4):
                        parts.append(bad_line(rng, 0))
                    if k == "logged" or rng.random() < 0.5:
                        parts.append(gen.noise(rng) + b" ")
                parts.append(valid_sentence(rng, 0))
                self.buf = io.BytesIO(b"".join(parts))

            def read(self, n):
                d = self.buf.read(n)
                if not d:
                    self.more()
                    d = self.buf.read(n)
                return d

            def readline(self):
                return self.buf.readline()
        r = NMEAReader(Endless(), quitonerror=policy, nmeaonly=k == "stream2",
                       errorhandler=None if k == "logged" else (lambda e: None))
        while True:
            try:
                _, m = r.read()
                if m is not None:
                    keep(m)
            except ERRS:
                pass
            yield "streamed"
    if k == "readers":
        while True:
            r = NMEAReader(io.BytesIO(valid_sentence(rng, 0) + bad_line(rng, 0)), quitonerror=rng.randrange(2),
                           errorhandler=lambda e: None, userdefined=rng.choice((None, {}, {"ZZQ": {"a": "ST"}})))
            for _, m in r:
                if m is not None:
                    keep(m)
            keep(r)
            yield
    if k in ("sockets", "chunked"):
        class Feed(sock.ScriptSocket):
            def recv(self, bufsize, flags=0):
                if not self.script:
                    raw = valid_sentence(rng, 0) + bad_line(rng, 0)
                    if k == "chunked":
                        raw = b"%x\r\n%s\r\n" % (len(raw), raw)
                    self.script = list(reversed(sock.segment(rng, raw, "any")))
                    self.given = bytearray()
                    if rng.random() < 0.1:
                        self.script.append("timeout")
                return super().recv(bufsize, flags)
        s = Feed([])
        r = NMEAReader(s, quitonerror=1, errorhandler=lambda e: None, encoding=1 if k == "chunked" else 0,
                       bufsize=rng.choice((64, 4096)))
        for n in itertools.count():
            _, m = r.read()
            if m is not None:
                keep(m)
            if n % 50 == 49:
                NMEAReader(sock.ScriptSocket([b"x"])).datastream.write(b"abc")
            yield "streamed"
    if k == "threads":
        # a new thread for each operation: its own reader, a shared one, parsing and building
        shared = NMEAReader(Cycle(valid_sentence(rng, 0) + bad_line(rng, 0)), quitonerror=1, errorhandler=lambda e: None)

        def work():
            r = NMEAReader(io.BytesIO(raw), quitonerror=1, errorhandler=lambda e: None)
            m = r.read()[1]
            if m is not None:
                keep(m)
                str(m), m.serialize()
            shared.read()
            parse(raw[:-4] + b"\r\n")
        for n in itertools.count():
            raw = valid_sentence(rng, 0)
            t = threading.Thread(target=work, name="t%d" % n)
            t.start()
            t.join()
            yield
    if k == "helpers":
        while True:
            for kind, a in (helper(rng), helper(rng), static(rng)):
                try:
                    getattr(NMEAMessage if kind == "static" else pynmeagps, a[0])(*a[1], **(a[2] if a[2:] else {}))
                except Exception:  # outcome judged elsewhere
                    pass
            yield


class Cycle:
    """The same bytes over and over."""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def read(self, n):
        d = self.data[self.pos:self.pos + n]
        self.pos = (self.pos + n) % len(self.data)
        return d

    def readline(self):
        i = self.data.find(b"\n", self.pos)
        d = self.data[self.pos:i + 1 if i >= 0 else None]
        self.pos = (self.pos + len(d)) % len(self.data)
        return d


def handlers():
    n = len(logging.getLogger().handlers)
    for lg in list(logging.Logger.manager.loggerDict.values()):
        n += len(getattr(lg, "handlers", ())) + len(getattr(lg, "filters", ()))
    return n


def measure():
    gc.collect()
    gc.collect()
    return dict(memory=tracemalloc.get_traced_memory()[0], objects=len(gc.get_objects()),
                descriptors=len(os.listdir("/proc/self/fd")), threads=threading.active_count(),
                handlers=handlers(), loggers=len(logging.Logger.manager.loggerDict))


# growth tolerated over one window of STEP repetitions: a quarter of what retaining one
# small string per repetition would give (table resizes and the like stay well below)
SLACK = dict(memory=60000, objects=300, descriptors=0, threads=0, handlers=0, loggers=0)


def case_activity(ctx, kind, seed, windows):
    import random
    rng = random.Random(seed)
    refs = []
    freed = [0]
    last = collections.deque(maxlen=200)  # the most recent results of all

    def keep(m):
        try:
            last.append(weakref.ref(m))
        except TypeError:
            pass
        if len(refs) < 100:
            try:
                refs.append(weakref.ref(m))
            except TypeError:
                pass
    ops = one(rng, kind, keep)

    def repeat(n):
        for i in range(n):
            got = next(ops)
            ctx.count("operations")
            if got:
                ctx.count(got)
            if i % 200 == 199:
                live = [r for r in refs if r() is not None]
                if live[2:]:
                    gc.collect()
                    live = [r for r in refs if r() is not None]
                freed[0] += len(refs) - len(live)
                # the most recent result may still be in a local variable of the activity
                ctx.check(len(live) <= 2, "dropped messages stay alive", lambda: f"{kind}: {len(live)}: {live[:3]!r}")
                refs.clear()
    tracemalloc.start(1)
    try:
        repeat(WARM)
        series = [measure()]
        for w in range(windows):
            repeat(STEP)
            series.append(measure())
            ctx.count("measurements")
            ctx.seen(kind, seed, w)

        def growth(what):
            return [b[what] - a[what] for a, b in zip(series, series[1:])]
        if any(min(growth(what)) > slack for what, slack in SLACK.items()):
            # an activity's own state (a large buffer, say) may have grown by chance: look on
            for _ in range(5):
                repeat(STEP)
                series.append(measure())
        for what, slack in SLACK.items():
            grow = growth(what)
            # a leak grows in every window; caches with a bound stop growing
            ctx.check(min(grow) <= slack, "retained: " + what,
                      lambda: f"{kind}: grows by {grow} {what} in every {STEP} repetitions")
    finally:
        tracemalloc.stop()
    ops.close()
    del ops
    gc.collect()
    live = [r for r in last if r() is not None]
    ctx.check(not live, "dropped things stay alive in the end", lambda: f"{kind}: {len(live)} of {len(last)}: {live[:3]!r}")
    ctx.count("gone in the end", len(last))
    ctx.count("messages_freed", freed[0])
    ctx.sample((kind, series[0], series[-1]))


def hold(rng, k, n):
    """n things held at the same time."""
    out = []
    for i in range(n):
        if k == "readers":
            r = NMEAReader(io.BytesIO(valid_sentence(rng, 0) + bad_line(rng, 0)), quitonerror=1, errorhandler=lambda e: None)
            list(r)
            out.append(r)
        elif k == "messages":
            m = parse(valid_sentence(rng, 0))[1]
            str(m), repr(m), m.serialize(), m.identity
            out.append(m)
        elif k == "built":
            mode, key = rng.choice(gen.LAYOUTS)
            talker, msgid = gen.talker_for(rng, mode, key)
            try:
                out.append(NMEAMessage(talker, msgid, mode, **gen.kwargs_for(rng, mode, key, reps=1)))
            except ERRS as err:
                out.append(err)
        elif k == "errors":
            o, m = parse(bad_line(rng, 0), validate=3)
            out.append(m)
        elif k == "users":
            from mon.checks.c02 import user_of
            msgid = gen.unknown_id(rng) + str(i)
            d, fields = userdef(rng)
            user = user_of([[msgid, d]])
            out.append((user, parse(spec.frame("GN", msgid, fields), 0, 1, user)[1]))
        else:
            w = NMEAReader(sock.ScriptSocket([valid_sentence(rng, 0)]), quitonerror=0)
            w.read()
            out.append(w)
    return out


def case_burst(ctx, kind, seed, few, many):
    """Many things held at once, then dropped: nothing of them stays."""
    import random
    rng = random.Random(seed)
    tracemalloc.start(1)
    try:
        before = None
        for n in (few, few, few):
            held = hold(rng, kind, n)
            del held
            before = measure()
        grow = []
        for n in (1, 2, 3, 4, 5):
            if n > 2 and all(min(g[k] for g in grow) <= slack for k, slack in SLACK.items()):
                break  # only what looks like growth is looked at again: a cache with a bound stops growing
            n *= many
            held = hold(rng, kind, n)
            ctx.count("held", len(held))
            del held
            after = measure()
            grow.append({k: after[k] - before[k] for k in after})
            before = after
            ctx.count("measurements")
            ctx.count("bursts")
        for what, slack in SLACK.items():
            ctx.check(min(g[what] for g in grow) <= slack, "retained after a burst: " + what,
                      lambda: f"{kind}: {many}, {2 * many}, ... held and dropped leave {[g[what] for g in grow]} {what}")
    finally:
        tracemalloc.stop()
    ctx.seen("burst", kind, seed)
    ctx.sample((kind, grow))


BURSTS = ("readers", "messages", "built", "errors", "users", "sockets")


def bursts(ctx):
    for kind in BURSTS:
        ctx.case("burst", kind=kind, seed=ctx.rng.randrange(10**9), few=100,
                 many=(400 if kind == "sockets" else 3000) * (1 if ctx.tier == "quick" else 4))


def _make(kind):
    def go(ctx):
        for _ in range(1 if ctx.tier == "quick" else 4):
            ctx.case("activity", kind=kind, seed=ctx.rng.randrange(10**9), windows=2 if ctx.tier == "quick" else 6)
    return go


for _a in ACTIVITIES:
    globals()["go_" + _a] = _make(_a)
