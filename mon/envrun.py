"""Operations run inside an interpreter started in some unusual way (see checks/c29.py)."""

import decimal
import gc
import locale
import logging
import os
import pickle
import random
import signal
import socket
import sys
import threading
import time
import warnings
import zlib

WATCHED = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "socket.connect", "socket.bind", "socket.sendto",
           "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.chmod", "os.truncate", "os.putenv", "os.unsetenv",
           "shutil.rmtree", "tempfile.mkstemp", "signal.pthread_kill", "os.kill", "ctypes.dlopen", "urllib.Request", "webbrowser.open")


def state():
    """The state of the process that a library has to leave alone."""
    um = os.umask(0)
    os.umask(um)
    try:
        cwd = os.getcwd()
    except OSError:
        cwd = None
    return {
        "environment": dict(os.environ), "directory": cwd, "umask": um, "locale": locale.setlocale(locale.LC_ALL),
        "decimal": repr(decimal.getcontext()), "default decimal": repr(decimal.DefaultContext),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "collector": (gc.isenabled(), gc.get_threshold()), "debug": gc.get_debug(),
        "signals": {int(s): repr(signal.getsignal(s)) for s in signal.valid_signals()},
        "warning filters": list(map(repr, warnings.filters)),
        "root logger": (logging.root.level, list(map(repr, logging.root.handlers)), logging.root.disabled, logging.root.filters),
        "logging": (logging.raiseExceptions, logging.getLoggerClass(), logging.getLogRecordFactory(), logging.root.manager.disable,
                    logging.getLevelNamesMapping()),
        "socket timeout": socket.getdefaulttimeout(), "random": hash(random.getstate()),
        "streams": tuple(map(id, (sys.stdin, sys.stdout, sys.stderr, sys.displayhook, sys.excepthook, sys.unraisablehook))),
        "thread hook": id(threading.excepthook), "path": list(sys.path), "digits": sys.get_int_max_str_digits(),
        "zone": time.tzname, "stack": threading.stack_size(), "trace": (sys.gettrace(), sys.getprofile()),
        "builtins": sorted(vars(__import__("builtins"))), "timers": signal.getitimer(signal.ITIMER_REAL)[1],
        "datetime": tuple(sorted(vars(__import__("datetime")))),
    }


def sock_result(a):
    from mon.lib import ERRS, NMEAReader, snap
    from mon.sock import ScriptSocket
    from mon.checks.c13 import canon

    segs, encoding, mode, policy, bufsize = a
    reps, out = [], []
    with ScriptSocket(segs) as s:
        r = NMEAReader(s, msgmode=mode, quitonerror=policy, encoding=encoding, bufsize=bufsize,
                       errorhandler=lambda e: reps.append((type(e).__name__, str(e))))
        for _ in range(500):
            try:
                raw, m = r.read()
            except ERRS as err:
                out.append((type(err).__name__, str(err)))
                continue
            if raw is None:
                break
            out.append((raw, canon(m)))
    assert snap
    return "sock", out, reps


class Record(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append((record.name, record.levelno, record.levelname, record.getMessage()))


def log_result(a):
    from io import BytesIO

    from mon.lib import ERRS, NMEAReader

    data, mode = a
    rec = Record()
    log = logging.getLogger("pynmeagps")
    log.addHandler(rec)
    try:
        r = NMEAReader(BytesIO(data), msgmode=mode, quitonerror=1)
        for _ in range(500):
            try:
                if r.read()[0] is None:
                    break
            except ERRS as err:
                rec.got.append(str(err))
    finally:
        log.removeHandler(rec)
    for _ in NMEAReader(BytesIO(data), msgmode=mode):  # perhaps nobody listens
        pass
    return "log", [x for x in rec.got if x[1] >= 30]


def perform(op):
    """Outcome of an operation, and whether the caller's objects survived."""
    from mon.checks.c13 import perform as p13

    kind, a = op
    if kind in ("sock", "log"):
        try:
            return sock_result(a) if kind == "sock" else log_result(a)
        except Exception as err:
            return "raised", type(err).__name__, str(err)
    res, kept = p13(op)
    return res if kept else ("caller's object changed", res)


def chunked(rng, data, encoding):
    """The data as a chunked (and compressed) transfer."""
    out = b""
    if encoding & 2:
        c = zlib.compressobj(6, zlib.DEFLATED, 31)
    elif encoding & 4:
        c = zlib.compressobj(6, zlib.DEFLATED, 15)
    elif encoding & 8:
        c = zlib.compressobj(6, zlib.DEFLATED, -15)
    else:
        c = None
    i = 0
    while i < len(data):
        n = rng.randint(1, 200)
        part = data[i:i + n]
        i += n
        if c:
            part = c.compress(part) + c.flush(zlib.Z_FINISH)
            c = {2: lambda: zlib.compressobj(6, zlib.DEFLATED, 31), 4: lambda: zlib.compressobj(6, zlib.DEFLATED, 15),
                 8: lambda: zlib.compressobj(6, zlib.DEFLATED, -15)}[encoding & 14]()
        out += b"%x\r\n" % len(part) + part + b"\r\n"
    return out + b"0\r\n\r\n"


def pool(rng, n):
    from mon.checks.c08 import compose
    from mon.checks.c13 import operation, user_pool

    from mon import spec

    users = user_pool(rng)
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.06:
            mode = rng.randrange(3)
            data = b"".join(b for _, b in compose(rng, mode, rng.randint(1, 6)))[:4000]
            ops.append(["log", [data, mode]])
        elif k < 0.12:
            mode = rng.randrange(3)
            data = b"".join(b for _, b in compose(rng, mode, rng.randint(1, 5)))[:3000]
            encoding = rng.choice((0, 0, 1, 3, 5, 9))
            if encoding:
                data = bytearray(chunked(rng, data, encoding))
                while data and rng.random() < 0.3:  # spoilt: logged, not shown
                    data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
                data = bytes(data)
            segs = []
            while data:
                j = rng.randint(1, 300)
                segs.append(data[:j])
                data = data[j:]
            ops.append(["sock", [segs, encoding, mode, rng.randrange(3), rng.choice((16, 512, 4096))]])
        elif k < 0.15:  # several definitions with similar names
            msgid, defn, fields = rng.choice(users)
            names = [msgid, "GN" + msgid, msgid.lower(), msgid[:-1], msgid + "0", "P" + msgid, msgid.upper(), " " + msgid, ""]
            rng.shuffle(names)
            user = [[n, rng.choice(users)[1]] for n in names[:rng.randint(2, 9)]] + [[msgid, defn]] * (rng.random() < 0.5)
            ops.append(["parse", [spec.frame("GN", msgid, fields), rng.randrange(3), rng.randrange(4), user]])
        elif k < 0.17:
            raw = spec.frame("GN", "GLL", ["5327.04", "N", "00214.41", "W"])
            ops.append(rng.choice((["parse", [raw, rng.choice((3, -1, 99)), 1, None]], ["parse", [bytearray(raw), 0, 1, None]],
                                   ["read", [raw, 3, rng.randrange(3), None]],
                                   ["build", ["GN", "GLL", 3, {}, False, None]],
                                   ["read", [raw[:-6] + b"*00\r\n", 0, rng.randrange(3), None]])))
        else:
            op = operation(rng, users)
            while "Decimal(" in repr(op):  # which the caller's decimal context governs
                op = operation(rng, users)
            ops.append(op)
    return ops


def run(ops, wrap):
    """Perform the operations in the way asked for."""
    def work():
        return [perform(op) for op in ops]
    if wrap == "recursion":
        perform(ops[0])
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(150)
        try:
            return work()
        finally:
            sys.setrecursionlimit(old)
    if wrap in ("thread", "stack"):
        out = []
        if wrap == "stack":
            threading.stack_size(256 * 1024)
        t = threading.Thread(target=lambda: out.extend(work()))
        t.start()
        t.join()
        if wrap == "stack":
            threading.stack_size(0)
        return out
    if wrap == "loop":
        import asyncio

        async def go():
            out = []
            for op in ops:
                out.append(perform(op))
                await asyncio.sleep(0)
            return out
        return asyncio.run(go())
    if wrap == "signals":
        hits = []
        old = signal.signal(signal.SIGALRM, lambda *_: hits.append(1))
        signal.setitimer(signal.ITIMER_REAL, 0.001, 0.001)
        try:
            return work()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    if wrap in ("trace", "profile"):
        def tr(*_):
            return tr
        set_ = sys.settrace if wrap == "trace" else sys.setprofile
        set_(tr)
        try:
            return work()
        finally:
            set_(None)
    return work()


def main(fd, out, wrap):
    with os.fdopen(fd, "rb") as f:
        ops = pickle.load(f)
    import copy, datetime, hashlib, io, ssl, struct, array, queue, subprocess, tempfile, zipfile, shutil  # noqa: F401,E401
    if wrap == "loop":
        import asyncio

        asyncio.run(asyncio.sleep(0))
    logging.lastResort = logging.NullHandler()
    before = state()
    import mon.lib  # noqa: F401 - the package itself
    log = logging.getLogger("pynmeagps")  # no logging set up
    log.propagate = True
    for h in list(log.handlers):
        if type(h) is logging.NullHandler:
            log.removeHandler(h)
    imported = state()
    import mon.checks.c13, mon.sock  # noqa: F401,E401
    middle = state()
    events = []
    on = [True]

    def hook(name, args):
        if on[0] and (name in WATCHED or name == "open" and isinstance(args[1], str) and set(args[1]) & set("wax+")):
            on[0] = False
            events.append((name, repr(args)[:200]))
            on[0] = True
    sys.addaudithook(hook)
    results = run(ops, wrap)
    on[0] = False
    after = state()
    changed = [(k, "import", repr(before[k])[:200], repr(imported[k])[:200]) for k in before if before[k] != imported[k]]
    changed += [(k, "use", repr(middle[k])[:200], repr(after[k])[:200]) for k in before if middle[k] != after[k]]
    with os.fdopen(out, "wb") as f:
        pickle.dump((results, changed, events), f)
