"""Regenerate golden/catalogue.json from /repo (run by hand, result reviewed and committed).

The snapshot is the reference the decode/generate monitors compare against; it is
never rewritten by a check."""
import json, os, sys
sys.path.insert(0, "/repo/src")
import pynmeagps.nmeatypes_core as core
import pynmeagps.nmeatypes_get as g, pynmeagps.nmeatypes_get_prop as gp
import pynmeagps.nmeatypes_set as s, pynmeagps.nmeatypes_set_prop as sp
import pynmeagps.nmeatypes_poll as p, pynmeagps.nmeatypes_poll_prop as pp

def conv(d):
    out = []
    for k, v in d.items():
        if isinstance(v, tuple):
            out.append([k, {"n": v[0], "items": conv(v[1])}])
        else:
            out.append([k, v])
    return out

def tab(*ts):
    out = {}
    for t in ts:
        for k, d in t.items():
            assert k not in out, k
            out[k] = conv(d)
    return out

cat = dict(
    talkers=list(core.NMEA_TALKERS), std=list(core.NMEA_MSGIDS), prop=list(core.NMEA_MSGIDS_PROP),
    prefixes=list(core.NMEA_PREFIX_PROP), desc={**core.NMEA_MSGIDS, **core.NMEA_MSGIDS_PROP},
    defs=[tab(g.NMEA_PAYLOADS_GET, gp.NMEA_PAYLOADS_GET_PROP),
          tab(s.NMEA_PAYLOADS_SET, sp.NMEA_PAYLOADS_SET_PROP),
          tab(p.NMEA_PAYLOADS_POLL, pp.NMEA_PAYLOADS_POLL_PROP)],
)
with open(os.path.join(os.path.dirname(__file__), "../golden/catalogue.json"), "w") as f:
    json.dump(cat, f, indent=0)
print([len(x) for x in cat["defs"]])
