"""Reference model: an independent, executable account of what the library should do.

Nothing here imports the code under test.  The catalogue of message layouts is the
committed snapshot golden/catalogue.json; everything else (framing, checksum, field
conversion, group expansion, layout selection, hemisphere rule, generation) is written
from the documentation.
"""

import datetime as dtm
import json
import os
import re
from decimal import ROUND_HALF_EVEN, Decimal
from fractions import Fraction

from mon.core import VERIF

with open(os.path.join(VERIF, "golden", "catalogue.json"), encoding="utf-8") as _f:
    CAT = json.load(_f)
GET, SET, POLL = 0, 1, 2
DEFS = CAT["defs"]
STD, PROP, PREFIX = set(CAT["std"]), set(CAT["prop"]), tuple(CAT["prefixes"])
TALKERS = list(CAT["talkers"])
HEADERS = sorted({t[0] for t in TALKERS})
TEXT = ("CH", "ST", "LAD", "LND", "QS", "HX")
TYPES = ("CH", "DE", "DM", "DT", "DTL", "HX", "IN", "LA", "LAD", "LN", "LND", "QS", "ST", "TM")

ANY = ("any", None)  # not decided by the reference


class TypeErr(Exception):
    """The reference says: this field cannot be converted."""


# ---------------------------------------------------------------- framing
def xor(data: bytes) -> int:
    c = 0
    for b in data:
        c ^= b
    return c


def cks(data: bytes) -> str:
    return "%02X" % xor(data)


def content(talker, msgid, fields) -> bytes:
    return ",".join([talker + msgid] + list(fields)).encode("utf-8")


def frame(talker, msgid, fields, ck=None, term=b"\r\n") -> bytes:
    c = content(talker, msgid, fields)
    return b"$" + c + b"*" + (cks(c) if ck is None else ck).encode("utf-8") + term


def raw_ok(raw: bytes):
    """Independent judgement of a sentence's framing and checksum.

    Returns True/False, or None if it cannot be decoded/split at all."""
    try:
        s = raw.decode("utf-8")
    except UnicodeDecodeError:
        return None
    s = s.strip("$\r\n")
    if "*" not in s:
        return None
    body, ck = s.split("*", 1)
    return ck.isascii() and ck.upper() == cks(body.encode("utf-8"))


# ---------------------------------------------------------------- field text -> value
_INT = re.compile(r"[+-]?[0-9]{1,4000}\Z")
_DEC = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z")
_TIM = re.compile(r"([0-9]{2})([0-9]{2})([0-9]{2})(\.([0-9]{1,6}))?\Z")
_POS = re.compile(r"[+-]?([0-9]{2,3})([0-9]{2}\.[0-9]{1,12})\Z")


def value(text, typ):
    """Expected value of a field: ('eq', v), ('pos', Fraction) or ANY; raises TypeErr."""
    if typ in TEXT:
        return ("eq", text)
    if typ == "IN":
        if text == "":
            return ("eq", "")
        if _INT.match(text):
            return ("eq", int(text))
        if re.search(r"[A-Za-z.!#:/]", text) and text.isascii():
            raise TypeErr
        return ANY
    if typ == "DE":
        if text == "":
            return ("eq", "")
        if _DEC.match(text):
            return ("eq", float(text))
        if re.search(r"[B-DF-HJ-MO-Zb-df-hj-mo-z!#:/]", text) and text.isascii() and not re.search(
            r"inf|nan", text, re.I
        ):
            raise TypeErr
        return ANY
    if typ == "TM":
        if text == "":
            return ("eq", "")
        m = _TIM.match(text)
        if m:
            h, mi, s = int(m[1]), int(m[2]), int(m[3])
            us = int((m[5] or "0").ljust(6, "0"))
            if h < 24 and mi < 60 and s < 60:
                return ("eq", dtm.time(h, mi, s, us))
            return ("eq", "")
        return ANY if re.match(r"[0-9]{6}\.[0-9]{7,}\Z", text) else ("eq", "")
    if typ in ("DT", "DM", "DTL"):
        if text == "":
            return ("eq", "")
        n = 8 if typ == "DTL" else 6
        if re.match(r"[0-9]{%d}\Z" % n, text):
            a, b, y = int(text[0:2]), int(text[2:4]), int(text[4:])
            d, m = (b, a) if typ == "DM" else (a, b)
            if n == 6:
                y += 1900 if y >= 69 else 2000
            try:
                return ("eq", dtm.date(y, m, d))
            except ValueError:
                return ("eq", "")
        return ("eq", "")
    if typ in ("LA", "LN"):
        if text == "":
            return ("eq", "")
        m = _POS.match(text)
        if m:
            return ("pos", Fraction(int(m[1])) + Fraction(m[2]) / 60)
        # signs, blanks around and other numbers of digits are left open
        return ANY if re.match(r"\s*[+-]?\d+\.\d*\s*\Z", text) else ("eq", "")
    raise TypeErr  # unknown type code


def agrees(exp, got):
    """Does an observed value satisfy an expectation (type-sensitive)?"""
    kind, v = exp
    if kind == "any":
        return True
    if kind == "eq":
        if type(v) is not type(got):
            return False
        return v == got
    if kind == "pos":
        if type(got) is not float:
            return False
        return abs(Fraction(got) - v) <= Fraction(1, 10**10)
    raise AssertionError(kind)


# ---------------------------------------------------------------- layout selection
def _acknak(key, mode, fields):
    if mode == GET and key[0:3] == "QTM":
        if len(fields) == 1 and fields[0] == "OK":
            return "QTMACK"
        if len(fields) == 2 and fields[0] == "ERROR":
            return "QTMNAK"
    return key


# (id, mode) -> {number of fields: suffix}
BYLEN = {
    ("QTMCFGGEOFENCE", SET): {13: "_POLY", 3: "_DIS"},
    ("QTMCFGGEOFENCE", GET): {13: "_POLY"},
    ("QTMCFGMSGRATE", SET): {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"},
    ("QTMCFGMSGRATE", GET): {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"},
    ("QTMCFGMSGRATE", POLL): {2: "_NOVER", 4: "_INTFNOVER", 5: "_INTF"},
    ("QTMCFGPPS", SET): {3: "_DIS"},
    ("QTMCFGSAT", SET): {4: "_LOW"},
    ("QTMCFGSAT", GET): {4: "_LOW"},
    ("QTMCFGUART", SET): {2: "_CURRBAUD", 3: "_BAUD", 6: "_CURR"},
    ("QTMCFGUART", POLL): {1: "_CURR"},
}


def key_for_fields(mode, msgid, fields, user=None):
    """Layout key a sentence must be decoded with.

    -> (source, key): source 'std' | 'prop' | 'user' | 'none'; key None if undefined."""
    user = user or {}
    if msgid in STD:
        return "std", (msgid if msgid in DEFS[mode] else None)
    if msgid in PROP or msgid in PREFIX:
        key = msgid
        if msgid in PREFIX:
            sub = fields[0] if fields else ""
            if not (msgid == "ASHR" and sub[1:2].isdigit()):
                key = msgid + sub
        if (key, mode) in BYLEN:
            key += BYLEN[(key, mode)].get(len(fields), "")
        elif key == "QTMSN" and mode == GET and fields and fields[0].isnumeric():
            key += "_ALT"
        elif key == "STMDRSENMSG":
            key += "_" + (fields[0] if fields else "")
        if key == msgid:
            key = _acknak(key, mode, fields)
        return "prop", (key if key in DEFS[mode] else None)
    if msgid in user:
        return "user", msgid
    return "none", None


def key_for_kwargs(mode, msgid, kw):
    """Layout key a message built from keywords must use (None: no definition)."""
    key = msgid
    if msgid in PREFIX:
        if "msgId" not in kw:
            return None
        key = msgid + kw["msgId"]
    has = kw.__contains__
    sfx = ""
    if key == "QTMCFGGEOFENCE":
        if mode in (SET, GET) and has("lon1"):
            sfx = "_POLY"
        elif mode == SET and kw.get("geofencemode", 1) == 0:
            sfx = "_DIS"
    elif key == "QTMCFGMSGRATE":
        sfx = {(0, 0): "_NOVER", (1, 0): "_INTFNOVER", (1, 1): "_INTF"}.get(
            (int(has("porttype")), int(has("msgver"))), "")
    elif key == "QTMCFGPPS":
        if mode == SET and kw.get("enable", 1) == 0:
            sfx = "_DIS"
    elif key == "QTMCFGSAT":
        if mode in (SET, GET) and not has("maskhigh"):
            sfx = "_LOW"
    elif key == "QTMCFGUART":
        if mode == SET:
            sfx = {(0, 1, 0): "_CURRBAUD", (1, 1, 0): "_BAUD", (0, 1, 1): "_CURR"}.get(
                (int(has("portid")), int(has("baudrate")), int(has("databit"))), "")
        elif mode == POLL and not has("portid"):
            sfx = "_CURR"
    elif key == "STMDRSENMSG":
        sfx = "_" + str(kw.get("msgtype", ""))
    key += sfx
    return key if key in DEFS[mode] else None


# ---------------------------------------------------------------- decoding
def walk(defn, fields):
    """Assign fields to attribute names: list of (name, type, text), group rule included."""
    out = []
    pos = 0
    vals = {}
    for name, typ in defn:
        if not isinstance(typ, dict):
            if pos < len(fields):
                out.append((name, typ, fields[pos]))
                vals[name] = (typ, fields[pos])
                pos += 1
            continue
        items = typ["items"]
        num = typ["n"]
        if num == "None":
            reps = (len(fields) - pos) // len(items)
        elif isinstance(num, int):
            reps = num
        else:
            t, text = vals.get(num, ("IN", ""))
            if text == "":
                reps = 0
            else:
                try:
                    e = value(text, t)
                except TypeErr:
                    reps = 0  # conversion of the count itself fails first
                else:
                    reps = e[1] if e[0] == "eq" and isinstance(e[1], int) else 0
        for i in range(1, min(reps, len(fields) + 1) + 1):
            for n2, t2 in items:
                if pos < len(fields):
                    out.append((f"{n2}_{i:02d}", t2, fields[pos]))
                    pos += 1
    return out


def decode_with(defn, fields, msgkey=""):
    """Expected attributes, in order, of a sentence decoded with a definition."""
    exp = []
    lastpos = {}
    for name, typ, text in walk(defn, fields):
        if msgkey == "SSNSNC":
            # brackets delimit groups in this message and are not part of the values
            text = text if name == "msgId" else text.replace("[", "").replace("]", "")
        v = value(text, typ)
        exp.append([name, v])
        if typ in ("LA", "LN"):
            lastpos[typ + "D"] = exp[-1]
        elif typ in ("LAD", "LND") and typ in lastpos:
            p = lastpos[typ]
            if p[1][0] == "pos" and text == ("S" if typ == "LAD" else "W"):
                p[1] = ("pos", -p[1][1])
            elif p[1][0] == "any":
                pass
    return exp


def decode(mode, talker, msgid, fields, user=None):
    """-> ('nominal'|'defined', [[name, expectation]...]) ; raises TypeErr."""
    src, key = key_for_fields(mode, msgid, fields, user)
    if key is None:
        return "nominal", [[f"field_{i + 1:02d}", ("eq", f)] for i, f in enumerate(fields)], src
    defn = user[key] if src == "user" else DEFS[mode][key]
    if src == "user":
        defn = from_user(defn)
    return "defined", decode_with(defn, fields, key), src


def from_user(d):
    """User-supplied definition dictionary in snapshot form."""
    return [
        [k, {"n": v[0], "items": from_user(v[1])} if isinstance(v, tuple) else v]
        for k, v in d.items()
    ]


def to_user(defn):
    """The inverse: snapshot form as the dictionary a caller would supply."""
    return {
        k: (v["n"], to_user(v["items"])) if isinstance(v, dict) else v for k, v in defn
    }


def identity(talker, msgid, fields, attrs=None):
    if talker == "P" and msgid in PREFIX and attrs and any(n == "msgId" for n, _ in attrs):
        return talker + msgid + fields[0]
    return talker + msgid


# ---------------------------------------------------------------- value -> field text
def pos_text_ok(text, val, typ, hp):
    """Is text the right (d)ddmm.mmmmm form of |val|?"""
    dp = 7 if hp else 5
    nd = 2 if typ == "LA" else 3
    m = re.match(r"([0-9]{%d})([0-9]{2})\.([0-9]{%d})\Z" % (nd, dp), text)
    if not m:
        return "malformed"
    minutes = Fraction(int(m[2])) + Fraction(int(m[3]), 10**dp)
    if minutes >= 60:
        return "minutes not below 60"
    got = Fraction(int(m[1])) + minutes / 60
    true = abs(Fraction(val))
    if abs(got - true) * 60 > Fraction(51, 100) / 10**dp:
        return "wrong value"
    return None


def nominal(typ, mode):
    if typ in ("CH", "ST", "LA", "LN"):
        return ("eq", "")
    if typ == "LAD":
        return ("eq", "N")
    if typ == "LND":
        return ("eq", "E")
    if typ in ("HX", "IN"):
        return ("eq", "0")
    if typ == "DE":
        return ("num", 0.0)
    if typ == "TM":
        return ("nowtime", None)
    if typ in ("DT", "DTL", "DM"):
        return ("nowdate", typ)
    if typ == "QS":
        return ("eq", {POLL: "R", SET: "W"}.get(mode, "OK"))
    raise TypeErr


def date_text(d, typ):
    dd, mm, yy = f"{d.day:02d}", f"{d.month:02d}", f"{d.year % 100:02d}"
    if typ == "DM":
        return mm + dd + yy
    if typ == "DTL":
        return dd + mm + f"{d.year:04d}"
    return dd + mm + yy


def text_of(val, typ, hp):
    """Expected NMEA text of a typed value, as an expectation on the field."""
    if typ in TEXT or typ == "IN":
        return ("eq", str(val))
    if typ == "DE":
        return ("eq", val) if isinstance(val, str) else ("num", val)
    if typ in ("LA", "LN"):
        return ("eq", "") if isinstance(val, str) else ("postext", (val, typ, hp))
    if typ == "TM":
        if isinstance(val, str):
            return ("eq", val.replace(":", ""))
        return ("eq", val.strftime("%H%M%S") + ".%02d" % (val.microsecond // 10000))
    if typ in ("DT", "DM", "DTL"):
        if isinstance(val, str):
            if val == "":
                return ("eq", "")
            v = val.replace("-", "")
            val = dtm.date(int(v[0:4]), int(v[4:6]), int(v[6:8]))
        return ("eq", date_text(val, typ))
    raise TypeErr


_PLAIN = re.compile(r"-?[0-9]+(\.[0-9]+)?\Z")


def text_agrees(exp, text, t0, t1):
    """Does a generated field satisfy its expectation?  (t0, t1: window of the call)"""
    kind, v = exp
    if kind == "any":
        return True
    if kind == "eq":
        return text == v
    if kind == "num":
        return bool(_PLAIN.match(text)) and float(text) == float(v)
    if kind == "postext":
        return pos_text_ok(text, *v) is None
    if kind == "nowtime":
        m = re.match(r"([0-9]{2})([0-9]{2})([0-9]{2})\.([0-9]{2})\Z", text)
        if not m:
            return False
        cs = ((int(m[1]) * 60 + int(m[2])) * 60 + int(m[3])) * 100 + int(m[4])

        def centis(t):
            return ((t.hour * 60 + t.minute) * 60 + t.second) * 100 + t.microsecond // 10000

        a, b = centis(t0), centis(t1)
        return a <= cs <= b if a <= b else (cs >= a or cs <= b)
    if kind == "nowdate":
        return text in (date_text(t0.date(), v), date_text(t1.date(), v))
    raise AssertionError(kind)


def group_count(num, kw):
    if isinstance(num, int):
        return num
    if num == "None":
        best = 0
        for k in kw:
            m = re.match(r".*_([0-9]+)\Z", k)
            if m:
                best = max(best, int(m[1]))
        return best
    return int(kw.get(num, 0) or 0)


def build(mode, key, kw, hp, defn=None):
    """Expected fields of a message built from keywords: [(name, type, expectation)]."""
    defn = DEFS[mode][key] if defn is None else defn
    out = []
    lastpos = {}

    def one(name, typ):
        if typ in ("LAD", "LND"):
            pv = lastpos.get(typ)
            if isinstance(pv, (int, float, Decimal)):
                neg = "S" if typ == "LAD" else "W"
                posv = "N" if typ == "LAD" else "E"
                out.append((name, typ, ("eq", neg if pv < 0 else posv)))
                return
        if name in kw:
            e = text_of(kw[name], typ, hp)
        else:
            e = nominal(typ, mode)
        if typ in ("LA", "LN"):
            lastpos[typ + "D"] = kw.get(name, "")
        out.append((name, typ, e))

    for name, typ in defn:
        if isinstance(typ, dict):
            for i in range(1, group_count(typ["n"], kw) + 1):
                for n2, t2 in typ["items"]:
                    one(f"{n2}_{i:02d}", t2)
        else:
            one(name, typ)
    return out


def base_id(mode, key):
    """(talker or None, msgid, forced first field or None) that selects a layout key."""
    if key in STD:
        return None, key, None
    for p in PREFIX:
        if key.startswith(p) and len(key) > len(p):
            return "P", p, key[len(p):]  # e.g. "TNLGGK" is sent as $PTNL,GGK,...
    for b in ("QTMCFGGEOFENCE", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT", "QTMCFGUART"):
        if key.startswith(b + "_"):
            return "P", b, None
    if key == "QTMSN_ALT":
        return "P", "QTMSN", None
    if key.startswith("STMDRSENMSG_"):
        return "P", "STMDRSENMSG", key.split("_")[1]
    if key == "QTMACK":
        return "P", "QTMCFGNAVMODE", None
    if key == "QTMNAK":
        return "P", "QTMCFGNAVMODE", None
    return "P", key, None


def flat(defn):
    for k, v in defn:
        if isinstance(v, dict):
            yield from flat(v["items"])
        else:
            yield k, v


def layouts():
    """All (mode, key) whose attribute types are all real."""
    for mode in (GET, SET, POLL):
        for key, d in DEFS[mode].items():
            if all(t in TYPES for _, t in flat(d)):
                yield mode, key


def quantize(x, dp):
    return Decimal(x).quantize(Decimal(1).scaleb(-dp), rounding=ROUND_HALF_EVEN)
