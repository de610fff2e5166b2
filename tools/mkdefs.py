#!/usr/bin/env python3
"""Pinned reference of the message definitions (data/defs.json), taken once from the base commit of /repo.

It is the oracle of C04/C05/C07/C13/C21: names, order, types and grouping of every payload field."""
import json, sys
sys.path.insert(0, "/repo/src")
import pynmeagps.nmeatypes_core as c, pynmeagps.nmeatypes_get as g, pynmeagps.nmeatypes_set as s, pynmeagps.nmeatypes_poll as p
import pynmeagps.nmeatypes_get_prop as gp, pynmeagps.nmeatypes_set_prop as sp, pynmeagps.nmeatypes_poll_prop as pp

def conv(d):
    out = []
    for k, v in d.items():
        if isinstance(v, tuple):
            out.append([k, [v[0], conv(v[1])]])
        else:
            out.append([k, v])
    return out
tabs = {"GET": g.NMEA_PAYLOADS_GET, "SET": s.NMEA_PAYLOADS_SET, "POLL": p.NMEA_PAYLOADS_POLL,
        "GETP": gp.NMEA_PAYLOADS_GET_PROP, "SETP": sp.NMEA_PAYLOADS_SET_PROP, "POLLP": pp.NMEA_PAYLOADS_POLL_PROP}
json.dump({"tabs": {t: {k: conv(v) for k, v in d.items()} for t, d in tabs.items()},
           "talkers": list(c.NMEA_TALKERS), "msgids": list(c.NMEA_MSGIDS), "msgids_prop": list(c.NMEA_MSGIDS_PROP),
           "prefix": list(c.NMEA_PREFIX_PROP)}, open("/verif/data/defs.json", "w"), indent=0)
