"""C29 results do not depend on the environment of the process, which is left as it was."""

import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import zipfile

from mon.core import SRC, VERIF, show

PROPERTY = "C29"
RULE = (
    "Pools of operations (parsing, building, reading streams, sockets with chunked and compressed transfer, log records, every "
    "helper and static conversion, valid and failing) run here and in interpreters started otherwise: -O, -OO, warnings "
    "as errors, bytes warnings as errors, -X dev, hash seeds, no UTF-8 mode and ASCII locale, empty environment, time zones, package in a "
    "zip file, no standard streams, removed working directory, decimal context of 3 digits, small recursion limit and "
    "stack, collector always or never, tracing and profiling, signals, debug logging or none, within threads and event "
    "loops. Every result must be the same; nothing may be printed, written, started or connected (audit events), and the "
    "state of the process (environment, locale, contexts, handlers, filters, limits, hooks, random state...) be as "
    "before the import. Non-trivial: distinct (environment, operation kind, start of arguments)."
)
QUICK = 1

HEAD = """
import os, sys
_i, _o = os.dup(0), int(sys.argv[1])
sys.path[:0] = [sys.argv[2], sys.argv[3]]
"""
TAIL = """
from mon import envrun
envrun.main(_i, _o, %r)
"""
# name -> (interpreter flags, environment, code before the package is imported, wrapper of the operations)
ENVS = {
    "plain": ([], {}, "", ""),
    "O": (["-O"], {}, "", ""),
    "OO": (["-OO"], {}, "", ""),
    "error": (["-W", "error"], {}, "", ""),
    "bytes": (["-bb"], {}, "", ""),
    "dev": (["-X", "dev", "-W", "ignore"], {}, "", ""),
    "hash1": ([], {"PYTHONHASHSEED": "1"}, "", ""),
    "hash2": ([], {"PYTHONHASHSEED": "4000000000"}, "", ""),
    "hashr": (["-R"], {"PYTHONHASHSEED": "random"}, "", ""),
    "ascii": (["-X", "utf8=0"], {"LANG": "C", "LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}, "", ""),
    "utf8": (["-X", "utf8"], {"LANG": "xx_XX", "PYTHONIOENCODING": "utf-16"}, "", ""),
    "empty": (["-I", "-S", "-E"], None, "", ""),
    "east": ([], {"TZ": "XXX-14"}, "import time; time.tzset()", ""),
    "west": ([], {"TZ": "AAA11BBB,M3.2.0,M11.1.0"}, "import time; time.tzset()", ""),
    "zip": ([], {}, "", ""),
    "nostd": ([], {}, "sys.stdin = sys.stdout = sys.stderr = None", ""),
    "closed": ([], {}, "os.close(0)", ""),
    "gone": ([], {}, "import tempfile; d = tempfile.mkdtemp(); os.chdir(d); os.rmdir(d)", ""),
    "decimal": ([], {}, "import decimal; decimal.setcontext(decimal.Context(prec=3, rounding=decimal.ROUND_UP, Emax=9, Emin=-9))", ""),
    "traps": ([], {}, "import decimal; c = decimal.getcontext(); c.traps = dict.fromkeys(c.traps, True)", ""),
    "recursion": ([], {}, "", "recursion"),
    "stack": ([], {}, "", "stack"),
    "thread": ([], {}, "", "thread"),
    "loop": ([], {}, "", "loop"),
    "signals": ([], {}, "", "signals"),
    "gcall": ([], {}, "import gc; gc.set_threshold(3, 1, 1)", ""),
    "gcnone": ([], {}, "import gc; gc.disable()", ""),
    "trace": ([], {}, "", "trace"),
    "profile": ([], {}, "", "profile"),
    "debuglog": ([], {}, "import logging, io; logging.basicConfig(level=1, stream=io.StringIO())", ""),
    "nolog": ([], {}, "import logging; logging.disable(logging.CRITICAL)", ""),
    "switch": ([], {}, "sys.setswitchinterval(1e-6)", ""),
    "locale": ([], {}, "import locale; locale.setlocale(locale.LC_ALL, 'C')", ""),
    "random": ([], {}, "import random; random.seed(7)", ""),
    "timeout": ([], {}, "import socket; socket.setdefaulttimeout(9.5)", ""),
    "levels": ([], {}, "import logging; logging.addLevelName(40, 'HM'); logging.setLoggerClass(type('L', (logging.Logger,), {}))", ""),
}
NEED = {"compared": 25000, "environments": 35, "states": 35, "audited": 20000, "failing": 500, "silent": 35}
CPU_PER_CASE = 200.0


def jobs(tier):
    k = 1 if tier == "quick" else 6
    return [f"{n}#{i}" for i in range(k) for n in ("first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth")]


def launch(env, ops):
    """Run operations in an environment: (outcome, output, return code)."""
    flags, extra, code, wrap = ENVS[env]
    environ = {} if extra is None else {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": "0", "LANG": "C.UTF-8", "TZ": "UTC",
        "PYTHONNOUSERSITE": "1", **extra}
    src, tmp = SRC, None
    try:
        if env == "zip":  # tmp/src is a zip file
            tmp = tempfile.mkdtemp(prefix="c29_")
            src = os.path.join(tmp, "src")
            with zipfile.ZipFile(src, "w") as z:
                for root, _, files in os.walk(os.path.join(SRC, "pynmeagps")):
                    for f in files:
                        if f.endswith(".py"):
                            p = os.path.join(root, f)
                            z.write(p, os.path.relpath(p, SRC))
        environ["VERIF_REPO"] = os.path.dirname(src)
        r, w = os.pipe()
        with tempfile.TemporaryFile() as given, tempfile.TemporaryFile() as out:
            pickle.dump(ops, given)
            given.seek(0)
            p = subprocess.Popen(
                [sys.executable, "-B", *flags, "-c", HEAD + code + TAIL % wrap, str(w), src, VERIF],
                stdin=given, stdout=out, stderr=subprocess.STDOUT, env=environ, pass_fds=(w,))
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            rc = p.wait(200)
            out.seek(0)
            text = out.read().decode("utf-8", "replace")
        return (pickle.loads(data) if data else None), text, rc
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def case_environment(ctx, env, ops):
    from mon import envrun

    want = [envrun.perform(op) for op in ops]
    got, text, rc = launch(env, ops)
    ctx.check(got is not None and rc == 0, "the package does not work in this environment", lambda: f"{env}: rc={rc} {text[-900:]}")
    results, changed, events = got
    ctx.check(len(results) == len(ops), "results missing", env)
    for op, a, b in zip(ops, want, results):
        if env == "nolog" and op[0] == "log":
            continue
        if env == "levels" and op[0] == "log":
            a = b = (a[0], [x[:2] for x in a[1]]) if a[0] == "log" else a
        ctx.check(a == b, "the result depends on the environment", lambda: f"{env}: {show(op, 400)}: here {show(a, 500)} there {show(b, 500)}")
        ctx.seen(env, op[0], str(op[1])[:16])
        if a[0] == "raised":
            ctx.count("failing")
        ctx.count("compared")
    ctx.count("audited", len(ops))
    ctx.check(not changed, "the state of the process was changed", lambda: f"{env}: {changed}")
    ctx.count("states")
    ctx.check(not events, "something else was touched", lambda: f"{env}: {events[:5]}")
    ctx.check(not text, "something was printed", lambda: f"{env}: {text[:600]}")
    ctx.count("silent")
    ctx.count("environments")
    ctx.sample((env, [(o[0], show(o[1], 60)) for o in ops[:3]]))


def share(part):
    def run(ctx):
        from mon import envrun

        for _ in range(ctx.n(1)):
            for env in list(ENVS)[part::8]:
                ctx.case("environment", env=env, ops=envrun.pool(ctx.rng, 900))
    return run


first, second, third, fourth, fifth, sixth, seventh, eighth = (share(i) for i in range(8))
