"""Access to the code under test (public interface only) and shared observers."""

import io
import logging

import pynmeagps
from pynmeagps import (
    NMEAMessage,
    NMEAMessageError,
    NMEAParseError,
    NMEAReader,
    NMEAStreamError,
    NMEATypeError,
)

from mon import spec
from mon.core import SRC, STYLE, show

assert pynmeagps.__file__.startswith(SRC), pynmeagps.__file__

ERRS = (NMEAParseError, NMEAMessageError, NMEATypeError, NMEAStreamError)
NAMES = {e: e.__name__ for e in ERRS}
logging.getLogger("pynmeagps").addHandler(logging.NullHandler())
logging.getLogger("pynmeagps").propagate = False
MISSING = type("MISSING", (), {"__repr__": lambda s: "<absent>"})()


def plain(fn, first, documented, kw):
    """fn(*first, **kw), written in one of the ways that mean the same by the documentation.

    documented: the optional parameters in order, with their defaults. Those given with their
    default may be left out, those at the front may be given by position."""
    STYLE[0] += 1
    n = STYLE[0] % 5
    if n in (1, 3):
        kw = {k: v for k, v in kw.items() if k not in documented or not same(v, documented[k])}
    if n in (2, 3):
        kw = dict(kw)
        first = list(first)
        for k, v in documented.items():
            if k not in kw:
                if n == 3 or not kw.keys() & documented.keys():
                    break
                kw[k] = v
            first.append(kw.pop(k))
    return fn(*first, **kw)


PARSE = dict(msgmode=0, validate=1, userdefined=None)
READER = dict(msgmode=0, validate=1, nmeaonly=False, quitonerror=1, bufsize=4096, errorhandler=None, userdefined=None,
              encoding=0)
MESSAGE = dict(hpnmeamode=False, validate=1, userdefined=None, checksum=None)


def reader(stream, **kw):
    return plain(NMEAReader, [stream], READER, kw)


def message(talker, msgid, mode, /, **kw):
    return plain(NMEAMessage, [talker, msgid, mode], MESSAGE, kw)


def parse(raw, mode=0, validate=1, user=None):
    """Direct parsing: ('msg', message) | ('none', None) | ('err', exception).

    Undocumented exceptions propagate (the harness turns them into violations)."""
    try:
        m = plain(NMEAReader.parse, [raw], PARSE, dict(msgmode=mode, validate=validate, userdefined=user))
    except ERRS as err:
        return "err", err
    return ("none", None) if m is None else ("msg", m)


def make(talker, msgid, mode, /, **kw):
    try:
        return "msg", message(talker, msgid, mode, **kw)
    except ERRS as err:
        return "err", err


def errname(e):
    return type(e).__name__


def attrs(m):
    """Public attributes of a message, in order."""
    return {k: v for k, v in vars(m).items() if k[:1] != "_"}


def same(a, b):
    """Type-sensitive, NaN-tolerant equality of attribute values."""
    if type(a) is not type(b):
        return False
    return a == b or (a != a and b != b)


def same_attrs(a, b):
    return list(a) == list(b) and all(same(a[k], b[k]) for k in a)


def snap(m):
    """Everything observable about a message."""
    return (
        m.talker, m.msgID, m.identity, m.msgmode, list(m.payload), m.checksum,
        [(k, type(v).__name__, repr(v)) for k, v in attrs(m).items()],
        str(m), repr(m), m.serialize(),
    )


def expect_attrs(ctx, m, exp, what=""):
    """Compare a message's attributes with the reference's expectation."""
    got = attrs(m)
    ctx.check(
        list(got) == [n for n, _ in exp], "attribute names",
        lambda: f"{what}: expected {show([n for n, _ in exp])} got {show(list(got))}",
    )
    for name, e in exp:
        v = getattr(m, name, MISSING)
        ctx.check(
            spec.agrees(e, v), "attribute value",
            lambda: f"{what}: {name}: expected {show(e)} got {v!r}",
        )


def drain(reader, limit):
    """Read to end of stream (bounded): list of (raw, parsed), ended flag."""
    out = []
    for _ in range(limit):
        raw, parsed = reader.read()
        if raw is None and parsed is None:
            return out, True
        out.append((raw, parsed))
    return out, False


class ByteStream:
    """Minimal stream: read(n) and readline() over a buffer; may grow."""

    def __init__(self, data=b""):
        self.buf = bytearray(data)
        self.reads = 0

    def read(self, n):
        self.reads += 1
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d

    def readline(self):
        self.reads += 1
        i = self.buf.find(b"\n")
        n = len(self.buf) if i < 0 else i + 1
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d

    def feed(self, data):
        self.buf += data


def stream_of(data):
    return io.BytesIO(data)
