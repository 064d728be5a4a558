"""C05 decode correctness: every defined field lands in the right attribute."""

from mon import gen, spec
from mon.checks.c02 import user_of
from mon.core import show
from mon.lib import attrs, errname, expect_attrs, parse, stream_of, reader

PROPERTY = "C05"
RULE = (
    "Sentences of every catalogued layout in every mode (random, boundary, blank and impossible "
    "fields), user definitions and unknown ids, decoded independently by the reference model from "
    "the committed catalogue and compared attribute by attribute (name, order, value, type), plus "
    "hand-decoded sentences of common ids. Non-trivial: distinct (layout, mode, field count, outcome)."
)
NEED = {"decoded": 8000, "attributes": 80000, "type_errors": 300, "layouts_seen": 630, "user": 500, "hand": 30,
        "blank_values": 2000, "impossible": 300}
QUICK = 12
ASSUMPTIONS = ["the committed catalogue snapshot (golden/catalogue.json) is the intended set of definitions"]

# decoded by hand from the published sentence formats
HAND = [
    ('GNGGA,103607.00,5327.03942,N,00214.42462,W,1,06,5.88,56.0,M,48.5,M,,', 'GNGGA',
     'time=10:36:07, lat=53.450657, NS=N, lon=-2.2404103333, EW=W, quality=1, numSV=6, HDOP=5.88, alt=56.0, altUnit=M, sep=48.5, sepUnit=M, diffAge=, diffStation='),
    ('GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A', 'GNGLL',
     'lat=-53.4507198333, NS=S, lon=2.2402326667, EW=E, time=22:32:32, status=A, posMode=A'),
    ('GNRMC,103607.00,A,5327.03942,N,00214.42462,W,0.046,,060321,,,A,V', 'GNRMC',
     'time=10:36:07, status=A, lat=53.450657, NS=N, lon=-2.2404103333, EW=W, spd=0.046, cog=, date=2021-03-06, mv=, mvEW=, posMode=A, navStatus=V'),
    ('GNGSA,A,3,23,24,20,12,25,15,,,,,,,3.63,1.88,3.11,1', 'GNGSA',
     'opMode=A, navMode=3, svid_01=23, svid_02=24, svid_03=20, svid_04=12, svid_05=25, svid_06=15, svid_07=, svid_08=, svid_09=, svid_10=, svid_11=, svid_12=, PDOP=3.63, HDOP=1.88, VDOP=3.11, systemId=1'),
    ('GPGSV,3,1,11,01,40,083,46,02,17,308,41,12,07,344,39,14,22,228,45,1', 'GPGSV',
     'numMsg=3, msgNum=1, numSV=11, svid_01=1, elv_01=40, az_01=83, cno_01=46, svid_02=2, elv_02=17, az_02=308, cno_02=41, svid_03=12, elv_03=7, az_03=344, cno_03=39, svid_04=14, elv_04=22, az_04=228, cno_04=45, signalID=1'),
    ('GNVTG,309.62,T,,M,0.13,N,0.2,K,A', 'GNVTG',
     'cogt=309.62, cogtUnit=T, cogm=, cogmUnit=M, sogn=0.13, sognUnit=N, sogk=0.2, sogkUnit=K, posMode=A'),
    ('GNZDA,082710.00,16,09,2002,00,00', 'GNZDA',
     'time=08:27:10, day=16, month=9, year=2002, ltzh=00, ltzn=00'),
    ('GNGNS,103600.01,5114.51176,N,00012.29380,W,ANNN,07,1.18,111.5,45.6,,,V', 'GNGNS',
     'time=10:36:00.010000, lat=51.2418626667, NS=N, lon=-0.2048966667, EW=W, posMode=ANNN, numSV=7, HDOP=1.18, alt=111.5, sep=45.6, diffAge=, diffStation=, navStatus=V'),
    ('GPGST,082356.00,1.8,,,,1.7,1.3,2.2', 'GPGST',
     'time=08:23:56, rangeRms=1.8, stdMajor=, stdMinor=, orient=, stdLat=1.7, stdLong=1.3, stdAlt=2.2'),
    ('GPGBS,235503.00,1.6,1.4,3.2,,,,,,', 'GPGBS',
     'time=23:55:03, errLat=1.6, errLon=1.4, errAlt=3.2, svid=, prob=, bias=, stddev=, systemId=, signalId='),
    ('GPDTM,W84,,0.0,N,0.0,E,0.0,W84', 'GPDTM',
     'datum=W84, subDatum=, latOfset=0.0, NS=N, lonOfset=0.0, EW=E, alt=0.0, refDatum=W84'),
    ('GPHDT,123.456,T', 'GPHDT',
     'headingT=123.456, headingTu=T'),
    ('GPTXT,01,01,02,ANTSTATUS=OK', 'GPTXT',
     'numMsg=1, msgNum=1, msgType=2, text=ANTSTATUS=OK'),
    ('GNTHS,77.52,E', 'GNTHS',
     'headt=77.52, mi=E'),
    ('GPROT,35.6,A', 'GPROT',
     'rot=35.6, valid=A'),
    ('PUBX,00,103607.00,5327.03942,N,00214.42462,W,104.461,G3,29,31,0.085,39.63,-0.007,,5.88,7.62,8.05,6,0,0', 'PUBX00',
     'msgId=00, time=10:36:07, lat=53.450657, NS=N, lon=-2.2404103333, EW=W, altRef=104.461, navStat=G3, hAcc=29.0, vAcc=31.0, SOG=0.085, COG=39.63, vVel=-0.007, diffAge=, HDOP=5.88, VDOP=7.62, TDOP=8.05, numSVs=6, reserved=0, DR=0'),
    ('PUBX,04,073731.00,091202,113851.00,1196,15D,1930035,-2660.664,43,', 'PUBX04',
     'msgId=04, time=07:37:31, date=2002-12-09, utcTow=113851.00, utcWk=1196, leapSec=15D, clkBias=1930035.0, clkDrift=-2660.664, tpGran=43'),
    ('PGRME,15.0,M,45.0,M,25.0,M', 'PGRME',
     'HPE=15.0, HPEUnit=M, VPE=45.0, VPEUnit=M, EPE=25.0, EPEUnit=M'),
    ('PASHR,130533.620,311.01,T,-80.467,-1.395,,0.066,0.067,0.215,2,3', 'PASHR',
     'utctime=13:05:33.620000, trueHdg=311.01, trueHdgInd=T, roll=-80.467, pitch=-1.395, reserved=, rollAcc=0.066, pitchAcc=0.067, hdgAcc=0.215, gnssQual=2, imuAlign=3'),
    ('SDDBT,7.8,f,2.4,M,1.3,F', 'SDDBT',
     'depthf=7.8, depthfu=f, depthm=2.4, depthmu=M, depthfath=1.3, depthfathu=F'),
    ('SDDPT,2.4,,', 'SDDPT',
     'depth=2.4, offset=, rangescale='),
    ('IIMWV,084.0,R,10.4,N,A', 'IIMWV',
     'angle=84.0, reference=R, speed=10.4, speedu=N, status=A'),
    ('IIVHW,245.1,T,245.1,M,000.01,N,000.01,K', 'IIVHW',
     'hdgT=245.1, hgdTu=T, hdgM=245.1, hgdMu=M, spdN=0.01, spdNu=N, spdK=0.01, spdKu=K'),
    ('HCHDG,98.3,0.0,E,12.6,W', 'HCHDG',
     'headingM=98.3, deviation=0.0, deviationEW=E, variation=12.6, variationEW=W'),
    ('GPWPL,4917.16,N,12310.64,W,003', 'GPWPL',
     'lat=49.286, NS=N, lon=-123.1773333333, EW=W, wpt=003'),
    ('GPBOD,045.,T,023.,M,DEST,START', 'GPBOD',
     'bearT=45.0, bearTu=T, bearM=23.0, bearMu=M, wptD=DEST, wptO=START'),
    ('GPXTE,A,A,0.67,L,N', 'GPXTE',
     'gwarn=A, LCcwarn=A, ctrkerr=0.67, dirs=L, disUnit=N'),
    ('GPRTE,2,1,c,0,W3IWI,DRIVWY,32CEDR', 'GPRTE',
     'numMsg=2, msgNum=1, status=c, routeid=0, wpt_01=W3IWI, wpt_02=DRIVWY, wpt_03=32CEDR'),
    ('GPAAM,A,A,0.10,N,WPTNME', 'GPAAM',
     'arrce=A, perp=A, crad=0.1, cUnit=N, wpt=WPTNME'),
    ('ECRMB,A,0.000,L,001,002,4653.550,N,07115.984,W,2.505,334.205,0.000,V', 'ECRMB',
     'status=A, ctrkerr=0.0, dirs=L, wptO=001, wptD=002, lat=46.8925, NS=N, lon=-71.2664, EW=W, range=2.505, bearing=334.205, velclos=0.0, arrstatus=V'),
    ('GPAPB,A,A,0.10,R,N,V,V,011,M,DEST,011,M,011,M', 'GPAPB',
     'LCgwarn=A, LCcwarn=A, ctrkerr=0.1, dirs=R, ctrkUnit=N, aalmcirc=V, aalmperp=V, bearO2D=11.0, bearO2Du=M, wpt=DEST, bearD=11.0, bearDu=M, bearS=11.0, bearSu=M'),
    ('IIMTW,17.75,C', 'IIMTW',
     'temp=17.75, tempu=C'),
    ('GPGRS,104148.00,1,2.6,2.2,-1.6,-1.1,-1.7,-1.5,5.8,1.7,,,,,1,1', 'GPGRS',
     'time=10:41:48, mode=1, residual_01=2.6, residual_02=2.2, residual_03=-1.6, residual_04=-1.1, residual_05=-1.7, residual_06=-1.5, residual_07=5.8, residual_08=1.7, residual_09=, residual_10=, residual_11=, residual_12=, systemId=1, signalId=1'),
    ('PQTMEPE,2,1.000,1.000,1.000,1.414,1.732', 'PQTMEPE',
     'msgver=2, epenorth=1.0, epeeast=1.0, epedown=1.0, epe2d=1.414, epe3d=1.732'),
    ('PQTMVERNO,LG290P03AANR01A03S,2024/04/30,10:50:20', 'PQTMVERNO',
     'verstr=LG290P03AANR01A03S, builddate=2024/04/30, buildtime=10:50:20'),
    ('PAIR001,062,0', 'PAIR001',
     'commandid=62, result=0'),
    ('PGRMM,WGS 84', 'PGRMM',
     'dtm=WGS 84'),
    ('PQTMSAVEPAR,OK', 'PQTMSAVEPAR',
     'status=OK'),
    ('PSSN,HRP,142251.00,160320,152.020,-0.010,,0.084,0.181,,19,2,2.200,E', 'PSSNHRP',
     'msgId=HRP, utc=14:22:51, date=2020-03-16, hdg=152.02, roll=-0.01, pitch=, hdgstd=0.084, rollstd=0.181, pitchstd=, sip=19, attmode=2, magvar=2.2, magvardir=E'),
    ('PQTMCFGUART,ERROR,1', 'PQTMCFGUART',
     'status=ERROR, errcode=1'),
]


def jobs(tier):
    k = 1 if tier == "quick" else 4
    return ["hand#0"] + [f"{n}#{i}" for i in range(k)
                         for n in ("layouts", "layouts2", "bads", "mixed", "userdefs", "typeerr")]


def case_hand(ctx, content, identity, text):
    raw = b"$" + content.encode() + b"*" + spec.cks(content.encode()).encode() + b"\r\n"
    k, m = parse(raw)
    ctx.check(k == "msg", "not decoded", lambda: f"{raw!r}: {m}")
    got = ", ".join(f"{n}={v}" for n, v in attrs(m).items())
    ctx.check(m.identity == identity and got == text, "hand-decoded sentence differs",
              lambda: f"{raw!r}: expected {text} got {got}")
    ctx.check(str(m) == f"<NMEA({identity}, {text})>", "str() form", lambda: str(m))
    ctx.count("hand")
    ctx.seen("hand", identity, content[:20])


def hand(ctx):
    for content, identity, text in HAND:
        ctx.case("hand", content=content, identity=identity, text=text)


def case_decode(ctx, talker, msgid, fields, mode, validate=1, user=None, via="parse"):
    user = user_of(user) if user is not None else None
    raw = spec.frame(talker, msgid, fields)
    err = None
    try:
        how, exp, src = spec.decode(mode, talker, msgid, fields, user)
    except spec.TypeErr:
        exp = None
    if via == "stream":
        r = reader(stream_of(raw), msgmode=mode, validate=validate, userdefined=user, quitonerror=1,
                       errorhandler=lambda e: None)
        got = r.read()
        k, m = ("msg", got[1]) if got[1] is not None else ("none", None)
    else:
        k, m = parse(raw.decode() if via == "str" else raw, mode, validate, user)
    if exp is None:
        ctx.count("type_errors")
        ctx.seen(msgid, mode, "type error")
        ctx.check(k != "msg", "field that cannot be converted accepted", lambda: f"{raw!r} mode {mode}: {m}")
        if via != "stream":
            ctx.check(k == "err" and errname(m) == "NMEATypeError", "not a type error",
                      lambda: f"{raw!r} mode {mode}: {k} {m!r}")
        return
    loose = any(e[0] == "any" for _, e in exp)
    if k != "msg" and loose:
        ctx.count("undecided")
        return
    what = f"{raw!r} mode {mode}"
    ctx.check(k == "msg", "not decoded", lambda: f"{what}: {k} {m}")
    expect_attrs(ctx, m, exp, what)
    ident = spec.identity(talker, msgid, fields, exp)
    ctx.check((m.talker, m.msgID, m.msgmode, m.identity) == (talker, msgid, mode, ident), "header",
              lambda: f"{what}: {m.talker} {m.msgID} {m.msgmode} {m.identity}, expected {ident}")
    txt = f"<NMEA({ident}" + (", NOMINAL" if src == "none" else "")
    txt += "".join(f", {n}={getattr(m, n)}" for n, _ in exp) + ")>"
    ctx.check(str(m) == txt, "str() form", lambda: f"{what}: {m} not {txt}")
    ctx.count("decoded")
    ctx.count("attributes", len(exp))
    ctx.count("blank_values", sum(1 for _, e in exp if e == ("eq", "")))
    if src == "user":
        ctx.count("user")
    ctx.seen(src, msgid, ident, mode, len(fields), how)
    ctx.sample(what + " -> " + txt)


def run(ctx, mode, talker, msgid, fields, user=None):
    ctx.case("decode", talker=talker, msgid=msgid, fields=fields, mode=mode,
             validate=ctx.rng.choice((1, 1, 0)) if user is None else 1, user=user,
             via=ctx.rng.choice(("parse", "parse", "str", "stream" if talker[0] in spec.HEADERS else "parse")))


def layouts(ctx):
    seen = set()
    for i in range(ctx.n(2600)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        seen.add((mode, key))
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        run(ctx, mode, talker, msgid, gen.fields_for(ctx.rng, mode, key))
    if ctx.job == "layouts#0":
        ctx.count("layouts_seen", len(seen))


layouts2 = layouts


def bads(ctx):
    """Impossible values: blanks and type errors."""
    for i in range(ctx.n(2600)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        fields = gen.fields_for(ctx.rng, mode, key, bad=ctx.rng.choice((0.05, 0.3)))
        ctx.count("impossible")
        run(ctx, mode, talker, msgid, fields)


def typeerr(ctx):
    """Exactly one unconvertible field in an otherwise valid sentence."""
    for i in range(ctx.n(2000)):
        mode, key = gen.LAYOUTS[i % len(gen.LAYOUTS)]
        talker, msgid = gen.talker_for(ctx.rng, mode, key)
        fields = gen.fields_for(ctx.rng, mode, key, reps=2)
        lay = spec.walk(spec.DEFS[mode][key], fields)
        num = [j for j, (_, t, _) in enumerate(lay) if t in ("IN", "DE")]
        if num:
            j = ctx.rng.choice(num)
            fields[j] = ctx.rng.choice(("abc", "1.2.3", "12x", "0x1F", "1..2", "--1", "M", "#", "1/2", "1:2"))
            run(ctx, mode, talker, msgid, fields)


def mixed(ctx):
    """Wrong modes, unknown ids, other talkers, surplus and missing fields."""
    for _ in range(ctx.n(3000)):
        mode, talker, msgid, fields, _ = gen.sentence(ctx.rng, bad=0.02, unknown=0.2)
        k = ctx.rng.randrange(5)
        if k == 0:
            mode = ctx.rng.randrange(3)
        elif k == 1:
            fields = fields[: ctx.rng.randint(0, len(fields))]
        elif k == 2:
            fields = fields + [gen.text(ctx.rng) for _ in range(ctx.rng.randint(1, 5))]
        if talker != "P" and ctx.rng.random() < 0.2:
            talker = ctx.rng.choice(("XX", "G1", "QZ", "ZZ"))
        run(ctx, mode, talker, msgid, fields)


def userdef(rng):
    """A flat or grouped user definition over all types with matching fields."""
    d, fields = [], []
    names = iter(f"{rng.choice(('a', 'val', 'x_y', 'Lat2'))}{i}" for i in range(99))
    for _ in range(rng.randint(1, 7)):
        k = rng.randrange(8)
        if k == 0:
            d.append([next(names), "LA"])
            d.append([next(names), "LAD"])
            fields += [gen.pos_text(rng, "LA"), rng.choice("NS")]
        elif k == 1:
            d.append([next(names), "LN"])
            d.append([next(names), "LND"])
            fields += [gen.pos_text(rng, "LN"), rng.choice("EW")]
        else:
            t = rng.choice(("CH", "DE", "DM", "DT", "DTL", "HX", "IN", "QS", "ST", "TM"))
            d.append([next(names), t])
            fields.append(gen.field(rng, t, 0.1))
    g = rng.randrange(5)
    if g == 4:
        # position group: item names repeat with suffixes
        n = rng.choice((1, 2, 3, 11))
        d.append(["grp", ["None", [["la", "LA"], ["ns", "LAD"], ["lo", "LN"], ["ew", "LND"]]]])
        for _ in range(n):
            fields += [gen.pos_text(rng, "LA"), rng.choice("NS"), gen.pos_text(rng, "LN"), rng.choice("EW")]
    elif g:
        items = [[f"it{j}", rng.choice(("IN", "DE", "ST", "TM", "HX"))] for j in range(rng.choice((1, 2, 3, 3, 5, 8, 12)))]
        n = rng.choice((1, 2, 3, 12))
        num = {1: n, 2: "None", 3: "cnt"}[g]
        if num == "cnt":
            d.append(["cnt", "IN"])
            fields.append(str(n))
        d.append(["grp", [num, items]])
        for _ in range(n):
            fields += [gen.field(rng, t, 0.05) for _, t in items]
        if num != "None":
            d.append(["tail", "ST"])
            fields.append("end")
    return d, fields


def userdefs(ctx):
    for _ in range(ctx.n(1500)):
        msgid = gen.unknown_id(ctx.rng)
        if ctx.rng.random() < 0.2:
            msgid = msgid.lower()
        if ctx.rng.random() < 0.05:  # undefined: every field verbatim as field_01, ... field_100, ...
            run(ctx, ctx.rng.randrange(3), "GN", msgid,
                [gen.text(ctx.rng) for _ in range(ctx.rng.choice((9, 10, 99, 100, 101, 130, 333)))])
        d, fields = userdef(ctx.rng)
        run(ctx, ctx.rng.randrange(3), ctx.rng.choice(("GN", "P", "GP", "XX")), msgid, fields, [[msgid, d]])
