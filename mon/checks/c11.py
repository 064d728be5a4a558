"""C11 chunked and compressed transfer is transparent under any segmentation."""

import gzip
import io
import logging
import zlib

from mon.checks.c08 import compose, config
from mon.checks.c10 import BUFSIZES, SocketWrapper, compare, filewise, pull
from mon.core import show
from mon.lib import reader
from mon.sock import ScriptSocket, segment

PROPERTY = "C11"
RULE = (
    "Byte streams divided into chunks (1 byte .. 70 kB, contents full of CR, LF, hex digits, '$'), every "
    "size spelling, plain/gzip/zlib/raw-deflate and several of them at once, with and without the final chunk, sent over scripted "
    "sockets: every single split point, every pair of split points of short streams, one byte at a time, "
    "random; buffer sizes 1..8192; receive timeouts between segments; chunks that cannot be decompressed and segments that are no chunks. The decoded bytes must be the "
    "concatenation of the chunk contents (prefix checked after every read), and messages those of the "
    "plain file. Non-trivial: distinct (encoding, chunk sizes, split points)."
)
NEED = {"decoded_bytes": 500000, "split_points": 4000, "split_pairs": 3000, "gzip": 1000, "zlib": 1000,
        "deflate": 1000, "several": 500, "messages": 3000, "lower_hex": 1000, "leading_zeros": 1000, "spoiled chunks": 500, "left-over segments": 1000}
QUICK = 8
PLAIN, GZIP, ZLIB, DEFLATE = 1, 3, 5, 9
SEVERAL = (7, 11, 13, 15)


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k)
            for n in ("random", "random2", "points", "points2", "pairs", "pairs2", "readers", "large", "spoiled")]


def pack(data, encoding, level=6):
    """Compressed as asked; of several, gzip is outermost and raw deflate innermost."""
    if encoding & 8:
        c = zlib.compressobj(level, zlib.DEFLATED, -zlib.MAX_WBITS)
        data = c.compress(data) + c.flush()
    if encoding & 4:
        data = zlib.compress(data, level)
    if encoding & 2:
        data = gzip.compress(data, level, mtime=0)
    return data


def size_line(n, style):
    s = f"{n:x}" if style & 1 else f"{n:X}"
    return ("0" * (style >> 1) + s).encode() + b"\r\n"


def encode(ctx, chunks, encoding, styles, final):
    out = b""
    for c, st in zip(chunks, styles):
        p = pack(c, encoding, st % 10)
        out += size_line(len(p), st) + p + b"\r\n"
        ctx.count("lower_hex" if st & 1 else "upper_hex")
        if st >> 1:
            ctx.count("leading_zeros")
    if final:
        out += b"0" * final + b"\r\n\r\n"
    return out


def payload(rng, n, sentences=False):
    alpha = rng.choice((bytes(range(256)), b"\r\n", b"0123456789abcdef\r\n", b"$GNGGA,12\r\n", b"\n\n\x00a", b"z"))
    return bytes(rng.choice(alpha) for _ in range(n))


def style(rng):
    return (rng.choice((0, 0, 0, 1, 2, 7)) << 1) | rng.randrange(2)


def case_decode(ctx, chunks, encoding, styles, final, cuts, bufsize, ops, faults):
    plain = b"".join(chunks)
    enc = encode(ctx, chunks, encoding, styles, final)
    cuts = [0] + sorted(c for c in cuts if 0 < c < len(enc)) + [len(enc)]
    script = []
    for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
        if i in faults:
            script.append(faults[i])
        script.append(enc[a:b])
    with ScriptSocket(script) as sk:
        w = SocketWrapper(sk, encoding=encoding, bufsize=bufsize)
        out = bytearray()
        k = 0
        for _ in range(2 * len(plain) + 2 * len(script) + 10):
            # near the end only single bytes can be read in full
            op = ops[k % len(ops)] if len(plain) - len(out) > 100 or not sk.done else 1
            k += 1
            before = sk.calls
            d = w.readline() if op == "line" else w.read(op)
            out += d
            ctx.check(not d or out[-len(d):] == plain[len(out) - len(d):len(out)],
                      "decoded bytes differ from chunk contents",
                      lambda: f"encoded {show(enc)} cuts {cuts[:9]}: decoded {show(bytes(out))}")
            if not d and sk.done and sk.calls > before and op == 1:
                break
        ctx.check(bytes(out) == plain, "decoded bytes lost or added",
                  lambda: f"encoded {show(enc)} cuts {cuts[:9]} bufsize {bufsize}: {len(out)} of {len(plain)} "
                          f"decoded, buffered {show(bytes(w.buffer))}")
        ctx.check(bytes(w.buffer) == b"", "extra bytes buffered", lambda: show(bytes(w.buffer)))
    ctx.count("decoded_bytes", len(plain))
    ctx.count({PLAIN: "plain", GZIP: "gzip", ZLIB: "zlib", DEFLATE: "deflate"}.get(encoding, "several"))
    ctx.seen(encoding, [len(c) for c in chunks][:8], cuts[:6], bufsize)
    ctx.sample((enc[:60], cuts[:6]))


def ops_of(rng):
    return [rng.choice(("line", 1, 1, 2, 7, rng.randint(1, 100))) for _ in range(rng.randint(1, 6))]


def some(rng, nmax, smax):
    chunks = [payload(rng, rng.randint(1, smax)) for _ in range(rng.randint(1, nmax))]
    enc = rng.choice((PLAIN, PLAIN, GZIP, ZLIB, DEFLATE, rng.choice(SEVERAL)))
    return dict(chunks=chunks, encoding=enc, styles=[style(rng) for _ in chunks], final=rng.choice((0, 1, 1, 3)),
                bufsize=rng.choice((4096, 4096) + BUFSIZES), ops=ops_of(rng), faults={})


def length(a):
    return sum(len(size_line(len(p), s)) + len(p) + 2 for p, s in (
        (pack(c, a["encoding"], s % 10), s) for c, s in zip(a["chunks"], a["styles"]))) + (
            a["final"] + 4 if a["final"] else 0)


def random(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(600)):
        a = some(rng, 6, rng.choice((3, 20, 300)))
        n = length(a)
        k = rng.choice((0, 1, 2, 5, 20, n))
        cuts = list(range(1, n)) if k == n else [rng.randrange(1, n) for _ in range(k)]
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                a["faults"][rng.randint(0, len(cuts))] = rng.choice(("timeout", "blocking", "reset", "eof"))
        ctx.case("decode", cuts=cuts, **a)


random2 = random


def points(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(20)):
        a = some(rng, 4, rng.choice((1, 4, 12, 40)))
        a["bufsize"] = 4096
        for c in range(1, length(a)):
            ctx.count("split_points")
            ctx.case("decode", cuts=[c], **a)


points2 = points


def pairs(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(2)):
        a = some(rng, 3, rng.choice((1, 3, 8)))
        a["bufsize"] = 4096
        n = length(a)
        allp = [(i, j) for i in range(1, n) for j in range(i + 1, n)]
        for c in allp if len(allp) < 1500 else rng.sample(allp, 1500):
            ctx.count("split_pairs")
            ctx.case("decode", cuts=list(c), **a)


def pairs2(ctx):
    """Pairs of a plain two-chunk stream of every small size combination."""
    rng = ctx.rng
    for n1 in (1, 2, 10):
        for n2 in (1, 16):
            a = dict(chunks=[payload(rng, n1), payload(rng, n2)], encoding=PLAIN, styles=[style(rng), style(rng)],
                     final=rng.choice((0, 1)), bufsize=4096, ops=[1], faults={})
            n = length(a)
            for i in range(1, n):
                for j in range(i + 1, n):
                    ctx.count("split_pairs")
                    ctx.case("decode", cuts=[i, j], **a)


def large(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(10)):
        chunks = [payload(rng, 1) * rng.choice((5000, 65535, 65536, 70000, 4094, 4096, 255, 256, 4095))
                  for _ in range(rng.randint(1, 3))]
        a = dict(chunks=chunks, encoding=rng.choice((PLAIN, GZIP, ZLIB, DEFLATE)), styles=[style(rng) for _ in chunks],
                 final=1, bufsize=rng.choice((4096, 1500, 65536)), ops=[rng.choice((100, "line", 1))], faults={})
        n = length(a)
        ctx.case("decode", cuts=[rng.randrange(1, n) for _ in range(rng.randint(0, 30))], **a)


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


def case_spoiled(ctx, before, junk, after, encoding, styles, cuts, bufsize):
    """A chunk that cannot be decompressed is logged as an error, and the chunks around it are not affected."""
    enc = encode(ctx, before, encoding, styles, 0) + size_line(len(junk), styles[0]) + junk + b"\r\n"
    enc += encode(ctx, after, encoding, styles[::-1], 1)
    script = [enc[a:b] for a, b in zip([0] + cuts, cuts + [len(enc)])]
    log, sink = logging.getLogger("pynmeagps"), Errors()
    log.addHandler(sink)
    try:
        with ScriptSocket(script) as sk:
            w = SocketWrapper(sk, encoding=encoding, bufsize=bufsize)
            out = bytearray()
            for _ in range(len(enc) + 10 + sum(map(len, before + after))):
                d = w.read(1)
                out += d
                if not d and sk.done:
                    break
    finally:
        log.removeHandler(sink)
    head, tail = b"".join(before), b"".join(after)
    what = lambda: f"{show(enc)} cuts {cuts[:9]}: {show(bytes(out))}"  # noqa: E731
    ctx.check(len(out) >= len(head + tail) and out.startswith(head) and out.endswith(tail),
              "a spoiled chunk affects others", what)
    ctx.check(len(sink.records) == 1, "a spoiled chunk is not reported once in the log", lambda: f"{sink.records}: {what()}")
    ctx.count("spoiled chunks")
    ctx.seen("spoiled", encoding, len(junk), len(before), len(after), cuts[:4])


def case_leftover(ctx, junk, chunks, encoding, styles, cuts, bufsize):
    """Segments that do not start with a size line (left over from before the stream) are skipped."""
    enc = encode(ctx, chunks, encoding, styles, 1)
    script = junk + [enc[a:b] for a, b in zip([0] + cuts, cuts + [len(enc)])]
    plain = b"".join(chunks)
    with ScriptSocket(script) as sk:
        w = SocketWrapper(sk, encoding=encoding, bufsize=bufsize)
        out = bytearray()
        for _ in range(len(plain) + len(script) + 10):
            d = w.read(1)
            out += d
            if not d and sk.done:
                break
    ctx.check(bytes(out) == plain, "left-over bytes disturb the stream", lambda: f"{junk} {show(enc)}: {show(bytes(out))}")
    ctx.count("left-over segments", len(junk))
    ctx.seen("leftover", [len(j) for j in junk], encoding, cuts[:4])


def binary(rng):
    """Bytes of another protocol: no size line, and line ends of any kind or none."""
    b = bytearray(rng.randbytes(rng.randint(1, 60)))
    b[0] = rng.choice([x for x in range(256) if chr(x) not in "0123456789abcdefABCDEF+- _\t\n\v\f\r"])
    for _ in range(rng.choice((0, 1, 3))):
        b.insert(rng.randint(1, len(b)), 10)
    return bytes(b)


def spoiled(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150)):
        enc = rng.choice((GZIP, ZLIB, DEFLATE))
        before, after = ([payload(rng, rng.randint(1, 40)) for _ in range(rng.randint(0, 2))] for _ in range(2))
        good = pack(payload(rng, 60), enc)
        junk = rng.choice((b"\xff" * rng.randint(1, 20), good[:max(1, len(good) // 2)], b"\x07" + good))
        if enc == DEFLATE:  # reserved block type, or cut short
            junk = rng.choice((b"\xff" * 9, b"\x07\x00", good[:max(1, len(good) // 2)]))
        cuts = sorted(rng.randint(1, 60 + len(junk)) for _ in range(rng.choice((0, 1, 3))))
        ctx.case("spoiled", before=before, junk=junk, after=after, encoding=enc, styles=[style(rng) for _ in range(3)],
                 cuts=sorted(set(c for c in cuts if c < 20)), bufsize=4096)
    for _ in range(ctx.n(150)):
        chunks = [payload(rng, rng.randint(1, 60)) for _ in range(rng.randint(1, 4))]
        junk = [rng.choice((b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n", b"ICY 200 OK\r\n", b"zz\r\n", b"$GNTXT,1*00\r\nxyz", b"\xff\xfe\r\n\x00",
                            b"Z" * rng.randint(1, 99) + b"\r\n" + payload(rng, 9), binary(rng), binary(rng),
                            b"HTTP/1.1 200 OK\nA: b\n\n", b"-5\r\nabc\r\n", b"GNGLL,1\n$GNGLL,2\n", b"xyz",
                            b"\xd3\x00", b"-1\n", b"g\n5\r\n", b"5;x\r\n")) for _ in range(rng.randint(1, 3))]
        ctx.case("leftover", junk=junk, chunks=chunks, encoding=rng.choice((PLAIN, GZIP, ZLIB, DEFLATE)),
                 styles=[style(rng) for _ in chunks], cuts=sorted({rng.randint(1, 9) for _ in range(rng.choice((0, 1, 2)))}),
                 bufsize=4096)


def case_reader(ctx, chunks, encoding, styles, final, script_seed, bufsize, mode, policy, conf=None):
    import random as _r

    plain = b"".join(chunks)
    enc = encode(ctx, chunks, encoding, styles, final)
    script = segment(_r.Random(script_seed), enc)
    want = filewise(plain, mode, policy, conf)
    with ScriptSocket(script) as sk:
        r = reader(sk, msgmode=mode, bufsize=bufsize, quitonerror=policy, errorhandler=lambda e: None,
                   encoding=encoding, **conf or {})
        out = pull(r, policy, len(plain) + len(script) + 10, lambda: sk.done)
        compare(ctx, out, want, lambda: f"encoded {show(enc, 600)} seed {script_seed}")
        ctx.count("messages", len(out))
    ctx.seen("reader", encoding, [len(c) for c in chunks][:8], bufsize)


def readers(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400)):
        mode = rng.choice((0, 0, 1, 2))
        while True:
            plain = b"".join(b for _, b in compose(rng, mode, rng.randint(1, 12)))
            if len(plain) < 6000:
                break
        chunks = [c for c in segment(rng, plain, rng.choice(("small", "any", "any", "whole", "big"))) if c]
        ctx.case("reader", chunks=chunks, encoding=rng.choice((PLAIN, GZIP, ZLIB, DEFLATE, rng.choice(SEVERAL))),
                 styles=[style(rng) for _ in chunks], final=rng.choice((0, 1)), script_seed=rng.randrange(10**9),
                 bufsize=rng.choice((4096,) + BUFSIZES), mode=mode, policy=rng.randrange(3), conf=config(rng, plain))
