"""Harness: sharded monitored runs, three-valued verdicts, replay, evidence.

A check module defines

    PROPERTY   id
    RULE       how cases are made and what makes one non-trivial
    NEED       {counter: minimum}; not reached -> inconclusive (exit 3), never "held"
    jobs(tier) -> list of (job function name, weight)   each job runs in its own process
    case_*     functions case_x(ctx, **json_args): drive the real code once and let
               the oracle judge what was observed

Jobs generate cases and hand them to ctx.case(name, **args); every argument is
JSON-able (bytes included), so that a violation's replay file is just
(case name, arguments) and `./check replay FILE` runs that one case again.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CPU_PER_CASE = 30.0  # CPU seconds; ordinary cases take milliseconds
WALL_PER_CASE = 240.0  # seconds without any CPU use: blocked for good
MAX_PER_KIND = 3


class Hang(BaseException):
    """A single case used more CPU than any terminating run could."""


class Violation(Exception):
    """Raised by an oracle: what was observed refutes the property."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Inconclusive(Exception):
    """Raised when the monitor could not observe what it needs."""


def enc(o):
    """Make a case argument JSON-able."""
    if isinstance(o, (bytes, bytearray)):
        return {"__b": bytes(o).hex()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {"__d": [[enc(k), enc(v)] for k, v in o.items()]}
    if isinstance(o, str) or o is None or isinstance(o, (bool, int)):
        return o
    if isinstance(o, float):
        return {"__f": o.hex()} if o == o and abs(o) != float("inf") else {"__f": repr(o)}
    import datetime as d
    import decimal

    if isinstance(o, decimal.Decimal):
        return {"__dec": str(o)}
    if isinstance(o, d.datetime):
        return {"__dt": o.isoformat()}
    if isinstance(o, d.date):
        return {"__date": o.isoformat()}
    if isinstance(o, d.time):
        return {"__time": o.isoformat()}
    raise TypeError(f"cannot encode {type(o)}")


def dec(o):
    import datetime as d
    import decimal

    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        (k, v), = o.items()
        if k == "__b":
            return bytes.fromhex(v)
        if k == "__f":
            return float(v) if v in ("nan", "inf", "-inf") else float.fromhex(v)
        if k == "__dec":
            return decimal.Decimal(v)
        if k == "__dt":
            return d.datetime.fromisoformat(v)
        if k == "__date":
            return d.date.fromisoformat(v)
        if k == "__time":
            return d.time.fromisoformat(v)
        return {dec(a): dec(b) for a, b in v}
    return o


def show(o, n=300):
    s = repr(o)
    return s if len(s) <= n else s[:n] + f"...[{len(s)}]"


STYLE = [0]  # how calls are written next (lib.plain): a matter of the case's number


class Ctx:
    """What one job records."""

    def __init__(self, module, tier, seed, job):
        self.module, self.tier, self.seed, self.job = module, tier, seed, job
        self.rng = random.Random(f"{seed}/{module.PROPERTY}/{job}")
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []  # (kind, detail, case, args)
        self.kinds = {}
        self.harness_error = None
        self.inconclusive = []
        self.hung = False
        self.report = None  # violations are passed on as soon as they are found

    def n(self, quick, thorough=None):
        """Number of iterations for this tier (module.QUICK/THOROUGH scale them)."""
        quick = int(quick * getattr(self.module, "QUICK", 1))
        if self.tier == "quick":
            return quick
        return thorough if thorough is not None else quick * getattr(self.module, "THOROUGH", 15)

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def seen(self, *key):
        """Register a distinct, non-trivial observation."""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8)
        self.distinct.add(h.digest())

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(show(what, 400))

    @property
    def stop(self):
        """Enough violations found: the job may end early."""
        return sum(self.kinds.values()) >= 12 or self.hung

    def check(self, cond, kind, detail=""):
        """Oracle verdict inside a case."""
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def case(self, name, **args):
        """Run one case under watchdog; True if the property held on it."""
        if self.stop:
            return False
        self.evaluations += 1
        self.style = STYLE[0] = self.evaluations * 5
        fn = getattr(self.module, "case_" + name)
        signal.setitimer(signal.ITIMER_VIRTUAL, getattr(self.module, "CPU_PER_CASE", CPU_PER_CASE))
        _Idle.cpu = _used()
        signal.setitimer(signal.ITIMER_REAL, WALL_PER_CASE)
        try:
            fn(self, **args)
            return True
        except Violation as err:
            self._violated(err.kind, err.detail, name, args)
        except Hang:
            self.hung = True
            self._violated("no termination", "far more time used than any terminating run needs", name, args)
        except Inconclusive as err:
            self.inconclusive.append(str(err))
        except MemoryError:
            self.hung = True
            self._violated("memory exhausted", "", name, args)
        except Exception as err:
            # either the library raised what it must not, or what it returned is so
            # far from what it should be that the oracle cannot even look at it
            tb = traceback.extract_tb(err.__traceback__)
            self._violated(
                f"unexpected {type(err).__name__}",
                f"{err} at {os.path.basename(tb[-1].filename)}:{tb[-1].name}",
                name,
                args,
            )
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        return False

    def _violated(self, kind, detail, name, args):
        k = self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if k <= MAX_PER_KIND:
            v = (kind, str(detail)[:2000], name, enc(args), os.environ.get("TZ", ""), self.style)
            self.violations.append(v)
            if self.report:
                self.report(v)


def _hang(*_):
    raise Hang()


class _Idle:
    cpu = 0.0


def _used():
    return time.process_time() + sum(os.times()[2:4])


def _blocked(*_):
    """Wall clock alarm inside a case: only a process that did nothing is blocked."""
    now = _used()
    if now - _Idle.cpu < 2:
        raise Hang()
    _Idle.cpu = now
    signal.setitimer(signal.ITIMER_REAL, WALL_PER_CASE)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGVTALRM, _hang)
    signal.signal(signal.SIGALRM, _blocked)


def watch_lines(lines):
    """Record which lines of the library a job executes (each only once: nearly free)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return

    def line(code, no):
        if code.co_filename.startswith(SRC):
            lines.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    try:
        mon.use_tool_id(4, "monitor")
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
    except ValueError:
        pass


def function_lines():
    """Lines inside the functions of the library (the rest runs at import)."""
    out = set()
    for root, _, files in os.walk(os.path.join(SRC, "pynmeagps")):
        for f in files:
            if f.endswith(".py"):
                path = os.path.join(root, f)
                try:
                    todo = [(compile(open(path, encoding="utf-8").read(), path, "exec"), True)]
                except (OSError, SyntaxError, UnicodeError):
                    continue
                while todo:
                    code, top = todo.pop()
                    for k in code.co_consts:
                        if hasattr(k, "co_code"):
                            todo.append((k, k.co_name == k.co_qualname and k.co_name[:1].isupper()))
                    if not top:
                        out |= {(f, n) for _, _, n in code.co_lines() if n and n > code.co_firstlineno}
    return out


def load(prop):
    return importlib.import_module(f"mon.checks.{prop.lower()}")


ZONES = ("UTC", "other", "XXX+12", "XXX3:30", "other", "XXX-1YYY,M3.5.0,M10.5.0/3")


def set_zone(zone):
    """Nothing the library does may depend on the local time zone: every job runs in another.

    In "other" it is now another day than in UTC."""
    if zone == "other":
        zone = "XXX+12" if time.gmtime().tm_hour < 11 else "XXX-14"
    os.environ["TZ"] = zone
    time.tzset()


def _worker(prop, tier, seed, job, conn):
    ctx = None
    lines = set()
    try:
        _limits()
        watch_lines(lines)
        set_zone(ZONES[(int(hashlib.sha256(job.encode()).hexdigest()[:6], 16) + seed) % len(ZONES)])
        module = load(prop)
        ctx = Ctx(module, tier, seed, job)
        ctx.report = conn.send
        fn = getattr(module, job.split("#")[0])
        fn(ctx)
    except BaseException:  # noqa - report everything
        if ctx is None:
            ctx = Ctx.__new__(Ctx)
            ctx.__dict__.update(
                evaluations=0, distinct=set(), counters={}, samples=[],
                violations=[], inconclusive=[], harness_error=None)
        ctx.harness_error = traceback.format_exc()
    conn.send(
        (
            ctx.evaluations,
            ctx.distinct,
            ctx.counters,
            ctx.samples,
            None,
            ctx.inconclusive,
            ctx.harness_error,
            lines,
        )
    )
    conn.close()
    os._exit(0)


def known_findings(prop):
    """Mechanism keys of recorded, unrepaired findings of a property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known: property=" + prop + " key="):
                rest = line.split(" key=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


def _line_report(lines):
    """Per source file: executed / present lines inside functions, and those never executed."""
    out = {}
    for f, n in sorted(function_lines()):
        ent = out.setdefault(f, [0, 0, []])
        ent[1] += 1
        if (f, n) in lines:
            ent[0] += 1
        else:
            ent[2].append(n)
    return {f: dict(executed=a, present=b, missed=m) for f, (a, b, m) in out.items()}


def run(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, SRC)
    module = load(prop)
    jobs = list(module.jobs(tier))
    limit = 780 if tier == "quick" else 6 * 3600
    ctxm = mp.get_context("fork")
    pending, running, results = list(jobs), [], []
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    errors, viol = [], []

    def drain(ent):
        """Take in what a job sent; True when it has finished."""
        job, _, r = ent
        while r.poll():
            try:
                got = r.recv()
            except EOFError:
                return False
            if len(got) == 8:
                results.append((job, got))
                return True
            viol.append((job,) + got)
        return False

    while pending or running:
        while pending and len(running) < nproc:
            job = pending.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=_worker, args=(prop, tier, seed, job, w), daemon=False)
            p.start()
            w.close()
            running.append((job, p, r))
        mp.connection.wait([r for _, _, r in running], timeout=1)
        for ent in list(running):
            job, p, r = ent
            gone = not p.is_alive()
            if drain(ent):
                p.join(10)
                running.remove(ent)
            elif gone:
                errors.append(f"job {job} died (exit {p.exitcode})")
                running.remove(ent)
        if time.time() - t0 > limit:
            for job, p, r in running:
                p.kill()
                errors.append(f"job {job} exceeded the wall clock limit")
            running, pending = [], []
    ev, distinct, counters, samples, inc, lines = 0, set(), {}, [], [], set()
    for job, (e, d, c, s, v, i, h, ln) in results:
        ev += e
        lines |= ln
        distinct |= d
        for k, x in c.items():
            counters[k] = counters.get(k, 0) + x
        samples += s[:2]
        inc += i
        if h:
            errors.append(f"job {job}: {h}")
    need = dict(getattr(module, "NEED", {}))
    short = {k: (counters.get(k, 0), m) for k, m in need.items() if counters.get(k, 0) < m}

    known = known_findings(prop)
    classify = getattr(module, "classify", lambda kind, detail, case, args: None)
    hit, fresh = {}, []
    for v in viol:
        key = classify(v[1], v[2], v[3], v[4])
        if key in known:
            hit[key] = v
        else:
            fresh.append(v)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for key, what in known.items():
        print(f"KNOWN-FINDING: property={prop} {key}: {what}")
    kinds = {}
    paths = []
    for n, (job, kind, detail, case, args, zone, style) in enumerate(fresh):
        kinds[kind] = kinds.get(kind, 0) + 1
        if kinds[kind] > 2 or len(paths) >= 10:
            continue
        path = os.path.join(rdir, f"{prop}-{len(paths)}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(dict(property=prop, kind=kind, detail=detail, case=case, args=args,
                           job=job, seed=seed, tier=tier, zone=zone, style=style), f, indent=1)
        paths.append(path)
        print(f"  {kind}: {detail}"[:600])
        print(f"VIOLATION property={prop} replay={path}")
    for e in errors:
        print("HARNESS: " + e, file=sys.stderr)
    for k, (got, want) in short.items():
        print(f"HARNESS: inconclusive: {k} observed {got} < {want}", file=sys.stderr)
    for i in inc[:5]:
        print("HARNESS: inconclusive: " + i, file=sys.stderr)
    wall = round(time.time() - t0, 2)
    evid = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=ev,
            distinct_nontrivial=len(distinct),
            rule=module.RULE,
            samples=samples[:12] or ["none"],
            observed=dict(sorted(counters.items())),
            jobs=len(results),
            required=need,
            library_lines=_line_report(lines),
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])) + [
            "holds for the executions counted above, not for all executions"],
        wall_s=wall,
        violations=len(fresh),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evid, f, indent=1, ensure_ascii=True)
    print(f"{prop} {tier} seed={seed}: {ev} cases, {len(distinct)} distinct, "
          f"{len(fresh)} violations, {len(errors)} errors, {wall}s")
    if fresh:
        return 1
    if errors:
        return 2
    if short or inc:
        return 3
    return 0


def replay(path):
    sys.path.insert(0, SRC)
    r = json.load(open(path, encoding="utf-8"))
    module = load(r["property"])
    _limits()
    set_zone(r.get("zone") or "UTC")
    ctx = Ctx(module, r["tier"], r["seed"], "replay")
    ctx.evaluations = r.get("style", 5) // 5 - 1
    ok = ctx.case(r["case"], **dec(r["args"]))
    for v in ctx.violations:
        print(v[0], v[1])
    print("held" if ok else "violated")
    return 0 if ok else 1


def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return run(argv[0].upper(), tier, seed)

