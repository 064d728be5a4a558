"""Workload generators: fields, sentences, attribute values, corruptions, noise."""

import datetime as dtm
import decimal

from mon import spec

PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
PUNCT = " !\"#%&'()+-./:;<=>?@[\\]^_`{|}~"
WIDE = "éßøΩж日本語°′″ﬁ€😀\u00a0\u2028ÿĀ"
CTRL = "\x00\x01\x07\x0b\x0c\x1b\x1c\x1f\x7f\x85"


def text(rng, kind=None, maxlen=12):
    kind = kind or rng.choice(("plain", "plain", "punct", "wide", "blank", "ctrl", "long", "num"))
    if kind == "blank":
        return ""
    if kind == "num":
        return rng.choice(("0", "00", "1", "-1", "007", "3.14", "1e5", "0x1F", "OK", "ERROR", "R", "W"))
    alpha = {"plain": PLAIN, "punct": PLAIN + PUNCT, "wide": PLAIN + WIDE, "ctrl": PLAIN + CTRL,
             "long": PLAIN + PUNCT}[kind]
    n = rng.randint(1, maxlen) if kind != "long" else rng.randint(20, 90)
    return "".join(rng.choice(alpha) for _ in range(n))


def coord(rng, typ):
    """A coordinate in degrees, biased to awkward places."""
    top = 90 if typ == "LA" else 180
    k = rng.randrange(9)
    if k == 0:
        v = float(rng.choice((0, top, 1, top - 1, 45, rng.randint(0, top))))
    elif k == 1:  # just below/above a whole degree
        v = rng.randint(1, top) - 10.0 ** -rng.randint(4, 13)
    elif k == 2:
        v = rng.randint(0, top - 1) + 10.0 ** -rng.randint(4, 13)
    elif k == 3:  # just below a whole minute
        v = rng.randint(0, top - 1) + rng.randint(1, 60) / 60 - 10.0 ** -rng.randint(5, 12)
    elif k == 4:  # whole minutes / seconds
        v = rng.randint(0, top * 3600) / 3600
    elif k == 5:  # half-way cases of the last printed digit
        v = (rng.randint(0, top * 60 * 10**5 - 1) + 0.5) / (60 * 10**5)
    elif k == 6:
        v = round(rng.uniform(0, top), rng.randint(0, 6))
    elif k == 7:
        v = rng.uniform(0, 0.02)
    else:
        v = rng.uniform(0, top)
    v = min(max(v, 0.0), float(top))
    return -v if rng.random() < 0.5 else v


def pos_text(rng, typ):
    top = 90 if typ == "LA" else 180
    d = rng.choice((0, top - 1, rng.randint(0, top - 1), rng.randint(0, top - 1)))
    dp = rng.choice((1, 2, 4, 5, 5, 5, 7, 7, 3, rng.choice((6, 8, 9, 12))))
    m = rng.choice((0, 60 * 10**dp - 1, rng.randint(0, 60 * 10**dp - 1), rng.randint(0, 60 * 10**dp - 1)))
    if rng.random() < 0.06:  # pole, antimeridian
        d, m = top, 0
    s = f"{m:0{dp + 2}d}"
    nd = 2 if typ == "LA" else 3
    if rng.random() < 0.03:  # zero-padded to the other width
        nd = 5 - nd
    sign = rng.choice("+-") if rng.random() < 0.03 else ""  # some receivers add one
    return f"{sign}{d:0{nd}d}{s[:2]}.{s[2:]}"


def time_text(rng):
    h = rng.choice((0, 23, 12, rng.randint(0, 23)))
    m = rng.choice((0, 59, rng.randint(0, 59)))
    s = rng.choice((0, 59, rng.randint(0, 59)))
    b = f"{h:02d}{m:02d}{s:02d}"
    n = rng.choice((0, 1, 2, 2, 2, 3, 3, 4, 6))
    return b if n == 0 else b + "." + "".join(rng.choice("0123456789") for _ in range(n))


def adate(rng, lo=dtm.date(1969, 1, 1), hi=dtm.date(2068, 12, 31)):
    k = rng.randrange(4)
    if k == 0:
        y = rng.choice((lo.year, hi.year, 2000, 1999, 2024, 2023, 1970))
        y = min(max(y, lo.year), hi.year)
        m, d = rng.choice(((1, 1), (12, 31), (2, 28), (3, 1), (10, 11), (11, 10), (9, 30)))
        return dtm.date(y, m, d)
    return lo + dtm.timedelta(days=rng.randint(0, (hi - lo).days))


def anydate(rng, typ):
    """Four-digit years can be any."""
    if typ == "DTL" and rng.random() < 0.3:
        return adate(rng, dtm.date(rng.choice((1, 1, 1000)), 1, 1), dtm.date(9999, 12, 31))
    return adate(rng)


def field(rng, typ, bad=0.0):
    """Field text for an attribute type; with probability bad an impossible one."""
    if typ in ("CH", "ST", "QS", "HX"):
        if typ == "QS" and rng.random() < 0.6:
            return rng.choice(("OK", "ERROR", "R", "W"))
        return text(rng)
    if rng.random() < 0.12:
        return ""
    if rng.random() < bad:
        return rng.choice({
            "IN": ("abc", "1.5", "12x", "0x1F", "NaN", "1e3", "--", "é"),
            "DE": ("abc", "1..2", "12x", "0x1F", "1.2.3", "M"),
            "TM": ("240000.00", "126000.00", "120060.00", "256199", "noon", "999999.99"),
            "DT": ("320124", "001224", "310224", "290223", "111324", "junk"),
            "DM": ("013224", "120024", "023024", "022923", "131124", "junk"),
            "DTL": ("32012024", "00122024", "31022024", "29022023", "11132024", "junk"),
            "LA": ("junk", "N", "abcd.ef"),
            "LN": ("junk", "E", "abcd.ef"),
            "LAD": ("X", "s", "E", "-"),
            "LND": ("X", "w", "N", "-"),
        }[typ])
    if typ == "IN":
        return rng.choice((str(rng.randint(0, 99)), str(rng.randint(-9999, 10**9)),
                           f"{rng.randint(0, 99):04d}", "0", "-0", str(2**63),
                           str(rng.choice((-1, 1)) * (2 ** rng.randint(31, 80) + 1))))
    if typ == "DE":
        return rng.choice((f"{rng.uniform(-999, 999):.{rng.randint(0, 6)}f}", str(rng.randint(0, 99)),
                           "0.0", "-0.00", "000.123", ".5", "5.", str(10**15), f"{rng.random():.9f}"))
    if typ == "TM":
        return time_text(rng)
    if typ in ("DT", "DM", "DTL"):
        return spec.date_text(anydate(rng, typ), typ)
    if typ in ("LA", "LN"):
        return pos_text(rng, typ)
    if typ == "LAD":
        return rng.choice("NS")
    if typ == "LND":
        return rng.choice("EW")
    return text(rng)


FIRST = {"QTMSN_ALT": "1", "QTMACK": "OK", "QTMNAK": "ERROR"}


def reps_for(rng, num):
    if isinstance(num, int):
        return num
    return rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 9, 12, 20, 33, 101 if rng.random() < 0.1 else 4))


def fields_for(rng, mode, key, bad=0.0, reps=None):
    """A complete field list for a layout (selector fields forced)."""
    _, msgid, first = spec.base_id(mode, key)
    out = []
    counts = {}
    for name, typ in spec.DEFS[mode][key]:
        if isinstance(typ, dict) and isinstance(typ["n"], str) and typ["n"] != "None":
            counts[typ["n"]] = reps if reps is not None else reps_for(rng, typ["n"])
    for name, typ in spec.DEFS[mode][key]:
        if isinstance(typ, dict):
            num = typ["n"]
            n = num if isinstance(num, int) else (
                counts[num] if num in counts else (reps if reps is not None else reps_for(rng, num)))
            for _ in range(n):
                for _, t2 in typ["items"]:
                    out.append(field(rng, t2, bad))
        elif name in counts:
            out.append(str(counts[name]))
        else:
            out.append(field(rng, typ, bad))
    if out and first is not None:
        out[0] = first
    if out and key in FIRST:
        out[0] = FIRST[key]
    if out and key == "ASHR":
        out[0] = rng.choice((time_text(rng), time_text(rng), ""))
    if out and key == "QTMSN" and out[0].isnumeric():
        out[0] = "OK"
    return out


def talker_for(rng, mode, key):
    t, msgid, _ = spec.base_id(mode, key)
    return (t or rng.choice(STDTALK)), msgid


# talkers for standard sentences: two letters, not proprietary
STDTALK = [t for t in spec.TALKERS if len(t) == 2 and t[0] != "P"]
LAYOUTS = list(spec.layouts())


def sentence(rng, bad=0.0, layout=None, modes=None, lower=0.1, unknown=0.1):
    """(mode, talker, msgid, fields, checksum text) of a random sentence."""
    if layout is None and rng.random() < unknown:
        mode = rng.choice(modes or (0, 1, 2))
        talker = rng.choice(STDTALK + ["P"])
        msgid = unknown_id(rng)
        fields = [text(rng) for _ in range(rng.randint(0, 9))]
        if rng.random() < 0.02:  # now and then a very long one
            fields += [text(rng) for _ in range(rng.randint(50, 700))] if rng.random() < 0.6 else [text(rng, "plain", 9) * rng.randint(90, 900)]
    else:
        if layout is None:
            layout = rng.choice(LAYOUTS)
            while modes and layout[0] not in modes:
                layout = rng.choice(LAYOUTS)
        mode, key = layout
        talker, msgid = talker_for(rng, mode, key)
        fields = fields_for(rng, mode, key, bad)
    ck = spec.cks(spec.content(talker, msgid, fields))
    if rng.random() < lower:
        ck = ck.lower()
    return mode, talker, msgid, fields, ck


def unknown_id(rng):
    while True:
        s = "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(rng.randint(3, 5)))
        s = rng.choice(("ZZ", "XQ", "Q")) + s
        if rng.random() < 0.06:
            s = s[: rng.randint(1, 2)]
        if rng.random() < 0.12:
            s = "".join(c.lower() if rng.random() < 0.5 else c for c in s)
        if s not in spec.STD and s not in spec.PROP and not s.startswith(spec.PREFIX):
            return s


# ---------------------------------------------------------------- typed values
def typed(rng, typ):
    """A typed value a caller would pass for an attribute of this type."""
    if typ in ("CH", "ST", "HX"):
        return text(rng, rng.choice(("plain", "punct", "wide", "blank", "num")))
    if typ == "QS":
        return rng.choice(("OK", "ERROR", "R", "W", ""))
    if typ == "LAD":
        return rng.choice("NS")
    if typ == "LND":
        return rng.choice("EW")
    if typ == "IN":
        return rng.choice((0, 1, rng.randint(0, 99), rng.randint(-(10**6), 10**9), 2**40,
                           rng.choice((-1, 1)) * (2 ** rng.randint(31, 80) + rng.choice((-1, 1)))))
    if typ == "DE":
        return rng.choice((0.0, round(rng.uniform(-500, 500), rng.randint(0, 6)), rng.uniform(-1e6, 1e6),
                           float(rng.randint(-99, 99)), rng.randint(-50, 50),
                           decimal.Decimal(rng.randint(-9999, 9999)).scaleb(rng.randint(-9, 3)),
                           rng.uniform(0, 1) * 10.0 ** -rng.randint(3, 9), 1e16 * rng.randint(1, 9)))
    if typ == "TM":
        t = dtm.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                     rng.choice((0, 10000 * rng.randint(0, 99), rng.randint(0, 999999), 999999)))
        if rng.random() < 0.3:
            form = rng.choice(("%H:%M:%S", "%H:%M:%S", "%H%M%S"))
            return t.strftime(form) + rng.choice((".%02d" % (t.microsecond // 10000), "", ".%03d" % (t.microsecond // 1000)))
        return t
    if typ in ("DT", "DM", "DTL"):
        d = anydate(rng, typ)
        return rng.choice((d, d, d.isoformat(), d.isoformat().replace("-", "")))
    if typ in ("LA", "LN"):
        v = coord(rng, typ)
        k = rng.random()
        return int(v) if k < 0.1 else decimal.Decimal(repr(v)) if k < 0.2 else v
    raise KeyError(typ)


def kwargs_for(rng, mode, key, p=None, reps=None):
    """Keyword attributes that select this layout and set a random subset of it."""
    p = rng.choice((0.0, 0.3, 0.7, 1.0, 1.0)) if p is None else p
    kw = {}
    _, msgid, first = spec.base_id(mode, key)
    for name, typ in spec.DEFS[mode][key]:
        if isinstance(typ, dict):
            num = typ["n"]
            n = num if isinstance(num, int) else (reps if reps is not None else reps_for(rng, num))
            for i in range(1, n + 1):
                for n2, t2 in typ["items"]:
                    if rng.random() < p:
                        kw[f"{n2}_{i:02d}"] = typed(rng, t2)
            if isinstance(num, str) and num != "None":
                kw[num] = n
        elif rng.random() < p:
            kw.setdefault(name, typed(rng, typ))
    if msgid in spec.PREFIX and first is not None:
        kw["msgId"] = first
    if key.startswith("STMDRSENMSG_"):
        kw["msgtype"] = int(first)
    steer(rng, mode, key, kw)
    return kw


def steer(rng, mode, key, kw):
    """Add/remove the distinguishing attributes of layouts that share an id."""

    def put(n, v):
        kw.setdefault(n, v)

    if key == "SSNSNC":  # brackets are group delimiters in this message
        for k, v in kw.items():
            if isinstance(v, str):
                kw[k] = v.replace("[", "(").replace("]", ")")
    names = dict(spec.flat(spec.DEFS[mode][key]))
    if mode == 0 and key.startswith("QTM") and key != "QTMNAK" and len(names) == 2:
        for n, t in names.items():  # ERROR,<x> is an error response whatever the id
            if t == "QS" and kw.get(n) == "ERROR":
                kw[n] = "OK"
    if key.startswith("QTMCFGGEOFENCE"):
        if key.endswith("_POLY"):
            put("lon1", coord(rng, "LN"))
        elif key.endswith("_DIS"):
            kw["geofencemode"] = 0
        elif mode == 1 and kw.get("geofencemode", 1) == 0:
            kw["geofencemode"] = 1
    if key.startswith("QTMCFGMSGRATE"):
        for n in ("porttype", "msgver"):
            if n in names:
                put(n, rng.randint(1, 3))
            else:
                kw.pop(n, None)
    if key == "QTMCFGPPS_DIS":
        kw["enable"] = 0
    elif key == "QTMCFGPPS" and mode == 1 and kw.get("enable", 1) == 0:
        kw["enable"] = 1
    if key == "QTMCFGSAT" and mode in (0, 1) and "maskhigh" in names:
        put("maskhigh", "0F")
    if key.startswith("QTMCFGUART"):
        if mode == 1:
            put("baudrate", 115200)
        for n in ("portid", "databit"):
            if n in names:
                put(n, rng.randint(1, 9))


# ---------------------------------------------------------------- corruption and noise
def mutate(rng, raw):
    """One corruption of a byte string; returns (bytes, operator name)."""
    b = bytearray(raw)
    op = rng.choice(("bit", "byte", "ins", "del", "swap", "dup", "cut", "ckdigit", "ckdrop", "ckextra",
                     "ckother", "burst", "fieldswap", "space", "case"))
    i = rng.randrange(len(b)) if b else 0
    star = raw.rfind(b"*")
    if op == "bit":
        b[i] ^= 1 << rng.randrange(8)
    elif op == "byte":
        b[i] = rng.randrange(256)
    elif op == "ins":
        b.insert(i, rng.choice((rng.randrange(256), 0x2C, 0x30, 0x20, 0x2A, 0x24)))
    elif op == "del":
        del b[i]
    elif op == "swap" and len(b) > 2:
        j = rng.randrange(len(b) - 1)
        b[j], b[j + 1] = b[j + 1], b[j]
    elif op == "dup":
        b.insert(i, b[i])
    elif op == "cut":
        j = rng.randint(i, len(b))
        del b[i:j]
    elif op == "ckdigit" and star > 0:
        j = star + 1 + rng.randrange(2)
        if j < len(b):
            b[j] = ord(rng.choice("0123456789ABCDEFabcdefgG "))
    elif op == "ckdrop" and star > 0:
        k = rng.choice((1, 2, 3))
        del b[star + 3 - k:star + 3]
    elif op == "ckextra" and star > 0:
        b[star + rng.choice((1, 2, 3)):0] = b""
        pos = star + rng.choice((1, 3))
        b[pos:pos] = rng.choice((b"0", b" ", b"+", b"0x", b"*", b",", b"A"))
    elif op == "ckother" and star > 0:
        b[star + 1:star + 3] = b"%02X" % rng.randrange(256)
    elif op == "burst":
        for _ in range(rng.randint(2, 6)):
            b[rng.randrange(len(b))] = rng.randrange(256)
    elif op == "fieldswap":
        parts = bytes(b).split(b",")
        if len(parts) > 3:
            j = rng.randrange(1, len(parts) - 2)
            parts[j] = parts[j] + b"1"
            b = bytearray(b",".join(parts))
    elif op == "space":
        b.insert(i, 0x20)
    elif op == "case":
        if chr(b[i]).isalpha() and b[i] < 128:
            b[i] ^= 0x20
    return bytes(b), op


HDRBYTES = {h.encode() for h in spec.HEADERS}


def ubx(rng):
    """A UBX-looking binary frame."""
    body = bytes([rng.randrange(256), rng.randrange(256)])
    pay = rng.randbytes(rng.randint(0, 40))
    body += len(pay).to_bytes(2, "little") + pay
    a = c = 0
    for x in body:
        a = (a + x) & 255
        c = (c + a) & 255
    return b"\xb5\x62" + body + bytes((a, c))


def noise(rng):
    """Foreign bytes that cannot be taken for (the start of) a sentence line.

    No '$' in it is followed by a header byte; a trailing '$' is allowed."""
    k = rng.randrange(10)
    if k == 0:
        n = ubx(rng)
    elif k == 1:
        n = b"\xd3\x00" + rng.randbytes(rng.randint(2, 30))
    elif k == 2:
        n = rng.choice((b"\r\n", b"\n", b"\r\n\r\n", b" ", b"\t\r\n", b"\x00\x00", b"\r"))
    elif k == 3:
        n = text(rng, "plain", 30).encode() + b"\r\n"
    elif k == 4:
        n = rng.choice((b"$", b"$$", b"$$$", b"$\n", b"$\r\n", b"$ ", b"$1", b"$\xff", b"$*", b"*$"))
    elif k == 5:
        n = rng.randbytes(rng.randint(1, 60)) + b"$"
    elif k == 6:
        n = b"!AIVDM,1,1,,A,14eG;o@034o8sd<L9i:a;WF>062D,0*7D\r\n"
    elif k == 7:
        n = ubx(rng)[:-1] + b"$"
    else:
        n = rng.randbytes(rng.randint(1, 60))
    out = bytearray()
    for i, x in enumerate(n):
        if out[-1:] == b"$" and bytes([x]) in HDRBYTES:
            x = 0x31
        out.append(x)
    return bytes(out)
