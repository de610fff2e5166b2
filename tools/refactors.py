"""Behaviour-preserving rewrites on which the checks have to stay quiet.
usage: refactors.py NAME DEST   (DEST: a scratch copy of /repo)   |   refactors.py --list"""
import os, sys
H, M, R, W = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
F = {}

F["cksum_reduce"] = (["C01", "C04", "C05", "C06", "C14"], [(H, "import re\n", "import re\nfrom functools import reduce\nfrom operator import xor\n"),
  (H, '''    cksum = 0
    for sub in content:
        cksum ^= ord(sub)
    return f"{cksum:02X}"
''', '''    return "{:02X}".format(reduce(xor, map(ord, content), 0))
''')])
F["cksum_fmt"] = (["C01"], [(H, '''    cksum = 0
    for sub in content:
        cksum ^= ord(sub)
    return f"{cksum:02X}"
''', '''    total, i = 0, 0
    while i < len(content):
        total = total ^ ord(content[i])
        i += 1
    return "%02X" % total
''')])
F["dform"] = (["C11", "C04", "C05"], [(H, '''def date2str(dat''', '''_FORMS = {DM: "%m%d%y", DTL: "%d%m%Y"}


def _dateform(form):
    """strftime format of a date type"""
    return _FORMS.get(form, "%d%m%y")


def date2str(dat'''), (H, '''        if form == DM:
            dform = "%m%d%y"
        elif form == DTL:
            dform = "%d%m%Y"
        else:
            dform = "%d%m%y"
        return dat.strftime(dform)
''', '''        return dat.strftime(_dateform(form))
'''), (H, '''        if form == "DM":
            dform = "%m%d%y"
        elif form == "DTL":
            dform = "%d%m%Y"
        else:
            dform = "%d%m%y"
        if len(dates) != (8 if form == "DTL" else 6) or not dates.isdigit():
            raise ValueError()
        utc = datetime.strptime(dates, dform)
        return utc.date()
''', '''        dform = _dateform(form)
        size = 6
        if form == DTL:
            size += 2
        if not (dates.isdigit() and len(dates) == size):
            return ""
        return datetime.strptime(dates, dform).date()
''')])
F["ddd2dmm"] = (["C09", "C05", "C08"], [(H, '''        degrees, minutes = divmod(round(abs(degrees) * 60, 7 if hpmode else 5), 60)
        degrees = int(degrees * 100)
        if hpmode:
            if att == LA:
                dmm = f"{degrees + minutes:.7f}".zfill(12)
            else:  # LN
                dmm = f"{degrees + minutes:.7f}".zfill(13)
        else:
            if att == LA:
                dmm = f"{degrees + minutes:.5f}".zfill(10)
            else:  # LN
                dmm = f"{degrees + minutes:.5f}".zfill(11)
        return dmm
''', '''        places = 7 if hpmode else 5
        total = round(abs(degrees) * 60, places)
        whole = total // 60
        minutes = total % 60
        width = places + (5 if att == LA else 6)
        value = int(whole * 100) + minutes
        return "{:.{p}f}".format(value, p=places).rjust(width, "0")
''')])
F["dmm2ddd"] = (["C09", "C08", "C04"], [(H, "LEAPS0 =", "_DMM = re.compile(r\"[+-]?[0-9]+\\.[0-9]*\")\nLEAPS0 ="), (H, '''        dp = pos.find(".")
        if dp < 4:
            raise ValueError()
        if re.fullmatch(r"[+-]?\\d+\\.\\d*", pos, re.ASCII) is None:
            raise ValueError()
        posdeg = abs(float(pos[0 : dp - 2]))
        posmin = float(pos[dp - 2 :])
        return round((posdeg + posmin / 60), 10)
''', '''        point = pos.find(".")
        if point < 4 or not _DMM.fullmatch(pos):
            return ""
        split = point - 2
        deg, mins = float(pos[:split]), float(pos[split:])
        if deg < 0:
            deg = -deg
        return round(mins / 60 + deg, 10)
''')])
F["get_parts"] = (["C01", "C02", "C06", "C14", "C21"], [(H, '''        content, cksum = message.strip("$\\r\\n").split("*", 1)
        hdr, *payload = content.split(",")
        s = 1 if hdr[:1] == "P" else 2
        talker, msgid = hdr[:s], hdr[s:]
        return content, talker, msgid, payload, cksum
''', '''        text = message.strip("$\\r\\n")
        content, sep, cksum = text.partition("*")
        if not sep:
            raise ValueError("no checksum")
        fields = content.split(",")
        header = fields[0]
        payload = fields[1:]
        if header.startswith("P"):
            talker, msgid = header[0], header[1:]
        else:
            talker, msgid = header[0:2], header[2:]
        return (content, talker, msgid, payload, cksum)
''')])
F["groupsize"] = (["C13", "C05"], [(H, '''    idx = 0
    for a in kwargs:
        ai = a.rsplit("_", 1)
        if len(ai) > 1 and ai[1].isdigit():
            idx = max(idx, int(ai[1]))
    return idx
''', '''    suffixes = [name.rpartition("_") for name in kwargs]
    return max((int(n) for _, sep, n in suffixes if sep and n.isdigit()), default=0)
''')])
F["leapsecond"] = (["C18", "C27", "C19"], [(H, "import re\n", "import re\nfrom bisect import bisect_right\n"), (H, '''    if totsec(dat) < LEAPSECONDS[0][0]:
        return 0

    dts = []
    for dt in (dat, ep0):
        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
    return dts[0] - dts[1]
''', '''    keys = [key for key, _ in LEAPSECONDS]

    def offset(dt) -> int:
        return LEAPSECONDS[bisect_right(keys, totsec(dt)) - 1][1]

    if totsec(dat) < keys[0]:
        return 0
    return offset(dat) - offset(ep0)
''')])
F["leapsecond2"] = (["C18", "C27"], [(H, '''    dts = []
    for dt in (dat, ep0):
        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
    return dts[0] - dts[1]
''', '''    now, then = totsec(dat), totsec(ep0)
    at_dat = at_ep0 = 0
    for key, val in LEAPSECONDS:
        if key <= now:
            at_dat = val
        if key <= then:
            at_ep0 = val
    return at_dat - at_ep0
''')])
F["gnss_table"] = (["C18", "C27"], [(H, '''def utc2wnotow(''', '''_SYSTEMS = {
    BDS: (EPOCH0_BEIDOU, 8192),
    GAL: (EPOCH0_GAL, 4096),
    IRN: (EPOCH0_IRN, 1024),
}


def _system(gnss):
    return _SYSTEMS.get(gnss, (EPOCH0_GPS, 1024))


def utc2wnotow('''), (H, '''    if gnss == BDS:
        ep0 = EPOCH0_BEIDOU
        rollover = 8192
    elif gnss == GAL:
        ep0 = EPOCH0_GAL
        rollover = 4096
    elif gnss == IRN:
        ep0 = EPOCH0_IRN
        rollover = 1024
    else:
        ep0 = EPOCH0_GPS
        rollover = 1024

    ls = 0 if gnss == GLO else leapsecond(utc, gnss)
    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
    wno, tow = divmod(ts, 604800000)
    wnom = wno % rollover
    return wnom if modwno else wno, tow, ls
''', '''    ep0, rollover = _system(gnss)
    ls = leapsecond(utc, gnss) if gnss != GLO else 0
    elapsed = utc + timedelta(seconds=ls) - ep0
    wno = elapsed // timedelta(weeks=1)
    tow = (elapsed % timedelta(weeks=1)) // timedelta(milliseconds=1)
    if modwno:
        wno %= rollover
    return wno, tow, ls
'''), (H, '''    if gnss == BDS:
        ep0 = EPOCH0_BEIDOU
        rollover = 8192
    elif gnss == GAL:
        ep0 = EPOCH0_GAL
        rollover = 4096
    elif gnss == IRN:
        ep0 = EPOCH0_IRN
        rollover = 1024
    else:
        ep0 = EPOCH0_GPS
        rollover = 1024
    wno = wno''', '''    ep0, rollover = _system(gnss)
    wno = wno''')])
F["wnotow_loop"] = (["C18", "C27"], [(H, '''    i = 0
    last = None
    while True:
        utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
        if gnss != GLO:  # apply leapsecond offset
            lps = leapsecond(utc, gnss) if ls is None else ls
            if ls is None:  # offset in force at the UTC time, not the GNSS time
                lps = leapsecond(utc - timedelta(seconds=lps), gnss)
            utc -= timedelta(seconds=lps)
        if not autoroll:
            break
        if utc > current:  # later than current date, so revert to previous rollover
            utc = last or utc
            break
        last = utc
        i += 1
    return utc
''', '''
    def toutc(week):
        utc = ep0 + timedelta(weeks=week, milliseconds=tow)
        if gnss == GLO:
            return utc
        lps = ls
        if lps is None:
            lps = leapsecond(utc, gnss)
            lps = leapsecond(utc - timedelta(seconds=lps), gnss)
        return utc - timedelta(seconds=lps)

    utc = toutc(wno)
    if autoroll:
        while utc <= current:
            wno += rollover
            later = toutc(wno)
            if later > current:
                break
            utc = later
    return utc
''')])
F["deg2"] = (["C10"], [(H, '''def deg2dmm(''', '''def _suffix(degrees, att):
    if att == LA:
        return "NS"[degrees < 0]
    return "EW"[degrees < 0]


def deg2dmm('''), (H, '''        negative = degrees < 0
        degrees = abs(degrees)
        # round before splitting, so that minutes never round up to 60
        degrees, minutes = divmod(round(degrees * 60, 7), 60)
        if negative:
            sfx = "S" if att == LA else "W"
        else:
            sfx = "N" if att == LA else "E"
        return f"{int(degrees)}\\u00b0{dec2str(minutes,7)}\\u2032{sfx}"
''', '''        sfx = _suffix(degrees, att)
        degs, mins = divmod(round(abs(degrees) * 60, 7), 60)
        return "".join((str(int(degs)), "\\u00b0", dec2str(mins, 7), "\\u2032", sfx))
'''), (H, '''        negative = degrees < 0
        degrees = abs(degrees)
        # round before splitting, so that seconds never round up to 60
        minutes, seconds = divmod(round(degrees * 3600, 5), 60)
        degrees, minutes = divmod(minutes, 60)
        if negative:
            sfx = "S" if att == LA else "W"
        else:
            sfx = "N" if att == LA else "E"
        return f"{int(degrees)}\\u00b0{int(minutes)}\\u2032{dec2str(seconds,5)}\\u2033{sfx}"
''', '''        sfx = _suffix(degrees, att)
        total = round(abs(degrees) * 3600, 5)
        mins, secs = divmod(total, 60)
        degs, mins = int(mins // 60), int(mins % 60)
        return "%d\\u00b0%d\\u2032%s\\u2033%s" % (degs, mins, dec2str(secs, 5), sfx)
''')])
F["dms2deg"] = (["C10"], [(H, '''    sign = -1 if dmsstr.find("S") >= 0 or dmsstr.find("W") >= 0 else 1
    dms = re.split(r"[^\\d.]", dmsstr, maxsplit=3)
    ddd = 0.0
    for x in range(len(dms) - 1):
        ddd += 0.0 if dms[x] == "" else float(dms[x]) / pow(60, x)
    return round(ddd * sign, rnd)
''', '''    sign = 1
    if "S" in dmsstr or "W" in dmsstr:
        sign = -1
    ddd = 0.0
    for n, part in enumerate(re.split(r"[^\\d.]", dmsstr, maxsplit=3)[:-1]):
        if part:
            ddd = ddd + float(part) / 60**n
    return round(sign * ddd, rnd)
''')])
F["misc_helpers"] = (["C23", "C22"], [(H, '''    pad = f"0{padding}" if padding else ""
    return f"{num:{pad}x}".upper()
''', '''    if padding:
        return format(num, f"0{padding}X")
    return format(num, "X")
'''), (H, '''    try:
        return knots * KNOTSCONV[unit.upper()]
    except KeyError as err:
''', '''    unit = unit.upper()
    try:
        factor = KNOTSCONV[unit]
        return knots * factor
    except KeyError as err:
'''), (H, '''    lati, loni, alti = [
        f"{'-' if c < 0 else '+'}{Decimal(str(abs(c))):f}" for c in (lat, lon, alt)
    ]
    return f"{lati}{loni}{alti}CRS{crs}/"
''', '''    parts = []
    for coord in (lat, lon, alt):
        sign = "-" if coord < 0 else "+"
        parts.append(sign + format(Decimal(str(abs(coord))), "f"))
    return "".join(parts) + "CRS" + crs + "/"
'''), (H, '''    latd = deg2dmm(lat, LA)
    lond = deg2dmm(lon, LN)
    return latd, lond
''', '''    return deg2dmm(lat, LA), deg2dmm(lon, LN)
'''), (H, '''    if msgID in NMEA_MSGIDS:
        return NMEA_MSGIDS[msgID]
    if msgID in NMEA_MSGIDS_PROP:
        return NMEA_MSGIDS_PROP[msgID]
    return f"Unknown msgID {msgID}"
''', '''    for table in (NMEA_MSGIDS, NMEA_MSGIDS_PROP):
        desc = table.get(msgID)
        if desc is not None:
            return desc
    return "Unknown msgID " + str(msgID)
''')])
F["trig_helpers"] = (["C22"], [(H, '''def area(
''', '''def _rad(*coords):
    return [c * pi / 180 for c in coords]


def area(
'''), (H, '''    phi1, phi2 = [c * pi / 180 for c in (lat1, lat2)]
    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180
''', '''    phi1, phi2 = _rad(lat1, lat2)
    dlon = abs(lon2 - lon1)
    return radius**2 * pi * abs(sin(phi2) - sin(phi1)) * dlon / 180
'''), (H, '''    theta = atan2(y, x)
    brng = (theta * 180 / pi + 360) % 360

    return brng
''', '''    return (atan2(y, x) * 180 / pi + 360) % 360
'''), (H, '''    dlambda = (lambda2 - lambda1) * cos(phi1)
    dphi = phi2 - phi1
    dist = radius * sqrt(dlambda * dlambda + dphi * dphi)

    return dist
''', '''    dlambda = (lambda2 - lambda1) * cos(phi1)
    dphi = phi2 - phi1
    return radius * sqrt(dphi**2 + dlambda**2)
''')])
F["trig_radians"] = (["C22"], [(H, "from math import acos, asin, atan2, cos, pi, sin, sqrt", "from math import acos, asin, atan2, cos, degrees, hypot, pi, radians, sin, sqrt"),
  (H, '''    phi1, phi2 = [c * pi / 180 for c in (lat1, lat2)]
    return''', '''    phi1, phi2 = radians(lat1), radians(lat2)
    return'''),
  (H, '''    brng = (theta * 180 / pi + 360) % 360
''', '''    brng = (degrees(theta) + 360) % 360
'''),
  (H, '''    dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
''', '''    dist = radius * hypot(dlambda, dphi)
''')])
F["naming"] = (["C05", "C13", "C03", "C04"], [(M, '''        keyr = key
        for i in gindex:  # one index for each nested level
            if i > 0:
                keyr += f"_{i:02d}"
''', '''        keyr = key + "".join(f"_{i:02d}" for i in gindex if i > 0)
'''), (M, '''        for i in range(rng):
            if self._streaming and pindex >= len(self._payload):
                break  # no more fields in payload
            gindex[-1] = i + 1
            for key1 in attd.keys():
                pindex, gindex = self._set_attribute(
                    pindex, attd, key1, gindex, **kwargs
                )
''', '''        item = 0
        while item < rng:
            if self._streaming and not pindex < len(self._payload):
                break  # no more fields in payload
            item += 1
            gindex[-1] = item
            for key1 in attd:
                pindex, gindex = self._set_attribute(
                    pindex, attd, key1, gindex, **kwargs
                )
'''), (M, '''        lenpayload = len(payload) - pindex - pindexend
        lengroup = len(attd)
        return int(lenpayload / lengroup)
''', '''        remaining = len(payload) - (pindex + pindexend)
        return remaining // len(attd)
'''), (M, '''            for key in pdict.keys():  # process each attribute in dict
''', '''            for key in pdict:  # process each attribute in dict
''')])
F["str2val_match"] = (["C04", "C02", "C11", "C09", "C08", "C07"], [(M, '''        val = vals
        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
            pass
        elif att == nmt.HX:
            val = vals
        elif att == nmt.DE:  # decimal
            if vals != "":
                val = float(vals)
        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
            val = date2utc(vals, att)
        elif att == nmt.IN:  # integer
            if vals != "":
                val = int(vals)
        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
            val = dmm2ddd(vals)
        elif att == nmt.TM:  # time hhmmss.ss
            val = time2utc(vals)
        else:
            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
        return val
''', '''        match att:
            case nmt.CH | nmt.ST | nmt.LAD | nmt.LND | nmt.QS | nmt.HX:
                return vals
            case nmt.DE:
                return float(vals) if vals != "" else vals
            case nmt.IN:
                return int(vals) if vals != "" else vals
            case nmt.DT | nmt.DTL | nmt.DM:
                return date2utc(vals, att)
            case nmt.LA | nmt.LN:
                return dmm2ddd(vals)
            case nmt.TM:
                return time2utc(vals)
        raise nme.NMEATypeError(f"Unknown attribute type {att}.")
''')])
F["str2val_table"] = (["C04", "C02", "C11", "C09", "C08"], [(M, '''        val = vals
        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
            pass
        elif att == nmt.HX:
            val = vals
        elif att == nmt.DE:  # decimal
            if vals != "":
                val = float(vals)
        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
            val = date2utc(vals, att)
        elif att == nmt.IN:  # integer
            if vals != "":
                val = int(vals)
        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
            val = dmm2ddd(vals)
        elif att == nmt.TM:  # time hhmmss.ss
            val = time2utc(vals)
        else:
            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
        return val
''', '''        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS, nmt.HX):
            return vals
        if att in (nmt.DE, nmt.IN):
            if not vals:
                return vals
            return {nmt.DE: float, nmt.IN: int}[att](vals)
        if att in (nmt.DT, nmt.DTL, nmt.DM):
            return date2utc(vals, form=att)
        converter = {nmt.LA: dmm2ddd, nmt.LN: dmm2ddd, nmt.TM: time2utc}.get(att)
        if converter is None:
            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
        return converter(vals)
''')])
F["val2str"] = (["C05", "C11", "C13", "C07"], [(M, '''        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
            vals = str(val)
        elif att == nmt.HX:
            vals = str(val)
        elif att == nmt.DE:
            vals = str(val)
        elif att == nmt.IN:
            vals = str(val)
        elif''', '''        if att in (
            nmt.CH,
            nmt.ST,
            nmt.LAD,
            nmt.LND,
            nmt.QS,
            nmt.HX,
            nmt.DE,
            nmt.IN,
        ):
            vals = f"{val!s}"
        elif'''), (M, '''                val = val.replace("-", "")
                vals = f"{val[6:8]}{val[4:6]}{val[2:4]}"
''', '''                ymd = val.replace("-", "")
                vals = ymd[6:8] + ymd[4:6] + ymd[2:4]
''')])
F["hemi"] = (["C08", "C05", "C04"], [(M, '''            if att == nmt.LND and nmt.LN in self._posatt:
                lon = getattr(self, self._posatt[nmt.LN])
                if isinstance(lon, (int, float)):
                    lon = -abs(lon) if val == "W" else abs(lon)
                    setattr(self, self._posatt[nmt.LN], lon)
            elif att == nmt.LAD and nmt.LA in self._posatt:
                lat = getattr(self, self._posatt[nmt.LA])
                if isinstance(lat, (int, float)):
                    lat = -abs(lat) if val == "S" else abs(lat)
                    setattr(self, self._posatt[nmt.LA], lat)
''', '''            kind = {nmt.LND: nmt.LN, nmt.LAD: nmt.LA}.get(att)
            if kind in self._posatt:
                self._sign_position(self._posatt[kind], val in {nmt.LN: ("W",), nmt.LA: ("S",)}[kind])
'''), (M, '''    def _set_attribute_nominal(''', '''    def _sign_position(self, name, negative):
        """Apply hemisphere to position attribute."""
        pos = getattr(self, name)
        if isinstance(pos, (int, float)):
            pos = abs(pos)
            setattr(self, name, -pos if negative else pos)

    def _set_attribute_nominal(''')])
F["serialize_join"] = (["C06", "C20", "C12", "C07"], [(M, '''        output = f"${self._talker}{self._msgID}"
        for att in self._payload:
            output += "," + att
        output += f"*{self._checksum}\\r\\n"
        return output.encode("utf-8")  # convert str to bytes
''', '''        content = ",".join([self._talker + self._msgID, *self._payload])
        return bytes("$%s*%s\\r\\n" % (content, self._checksum), "utf-8")
'''), (M, '''        for att, val in self.__dict__.items():
            if att[0] != "_":  # only show public attributes
                stg += f", {att}={val}"
        stg += ")>"

        return stg
''', '''        public = {k: v for k, v in vars(self).items() if not k.startswith("_")}
        stg += "".join(f", {att}={val}" for att, val in public.items())
        return stg + ")>"
'''), (M, '''        return (
            f"NMEAMessage({self._talker!r},{self._msgID!r}, "
            f"{self._mode}, payload={self._payload})"
        )
''', '''        return "NMEAMessage({!r},{!r}, {}, payload={})".format(
            self.talker, self.msgID, self.msgmode, self.payload
        )
''')])
F["immut"] = (["C12", "C04"], [(M, '''        if self._immutable:
            raise nme.NMEAMessageError(
                f"Object is immutable. Updates to {name} not permitted after initialisation."
            )

        super().__setattr__(name, value)
''', '''        self._check_mutable("Updates to", name)
        object.__setattr__(self, name, value)
'''), (M, '''        if self._immutable:
            raise nme.NMEAMessageError(
                f"Object is immutable. Deletion of {name} not permitted after initialisation."
            )

        super().__delattr__(name)
''', '''        self._check_mutable("Deletion of", name)
        super().__delattr__(name)

    def _check_mutable(self, what, name):
        if not self._immutable:
            return
        raise nme.NMEAMessageError(
            "Object is immutable. {} {} not permitted after initialisation.".format(what, name)
        )
''')])
F["getdict"] = (["C21", "C24", "C04", "C05", "C16"], [(M, '''        if key == "QTMCFGGEOFENCE":
            key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
        elif key == "QTMCFGMSGRATE":
            key = self._get_dict_qtmcfgmsgrate(key, self._mode, **kwargs)
        elif key == "QTMCFGPPS":
            key = self._get_dict_qtmcfgpps(key, self._mode, **kwargs)
        elif key == "QTMCFGSAT":
            key = self._get_dict_qtmcfgsat(key, self._mode, **kwargs)
        elif key == "QTMCFGUART":
            key = self._get_dict_qtmcfguart(key, self._mode, **kwargs)
        elif key == "QTMSN":
            key = self._get_dict_qtmsn(key, self._mode, **kwargs)
        elif key == "STMDRSENMSG":
            key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
        if key[0:3] == "QTM":
            key = self._get_dict_qtmacknak(key, self._mode)

        if self._mode == nmt.POLL:
            if key in nmp.NMEA_PAYLOADS_POLL:  # e.g. u-blox, Garmin, Ashtech
                return nmp.NMEA_PAYLOADS_POLL[key]
            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
        if self._mode == nmt.SET:
            return nmsp.NMEA_PAYLOADS_SET_PROP[key]
        return nmgp.NMEA_PAYLOADS_GET_PROP[key]
''', '''        variants = {
            "QTMCFGGEOFENCE": self._get_dict_qtmcfggeofence,
            "QTMCFGMSGRATE": self._get_dict_qtmcfgmsgrate,
            "QTMCFGPPS": self._get_dict_qtmcfgpps,
            "QTMCFGSAT": self._get_dict_qtmcfgsat,
            "QTMCFGUART": self._get_dict_qtmcfguart,
            "QTMSN": self._get_dict_qtmsn,
            "STMDRSENMSG": self._get_dict_stmdrsenmsg,
        }
        variant = variants.get(key)
        if variant:
            key = variant(key, self._mode, **kwargs)
        if key.startswith("QTM"):
            key = self._get_dict_qtmacknak(key, self._mode)

        tables = {
            nmt.GET: (nmgp.NMEA_PAYLOADS_GET_PROP,),
            nmt.SET: (nmsp.NMEA_PAYLOADS_SET_PROP,),
            nmt.POLL: (nmp.NMEA_PAYLOADS_POLL, nmpp.NMEA_PAYLOADS_POLL_PROP),
        }[self._mode]
        for table in tables:
            if key in table:
                return table[key]
        raise KeyError(key)
'''), (M, '''            if lp == 1 and self._payload[0] == "OK":
                key = "QTMACK"
            elif lp == 2 and self._payload[0] == "ERROR":
                key = "QTMNAK"
        return key
''', '''            status = self._payload[0] if lp else ""
            if (lp, status) == (1, "OK"):
                return "QTMACK"
            if (lp, status) == (2, "ERROR"):
                return "QTMNAK"
        return key
''')])
F["msgrate"] = (["C21"], [(M, '''        if mode in (nmt.SET, nmt.GET):
            if (py and lp == 3) or (not py and not pt and not mv):
                key += "_NOVER"
            elif (py and lp == 5) or (not py and pt and not mv):
                key += "_INTFNOVER"
            elif (py and lp == 6) or (not py and pt and mv):
                key += "_INTF"
        elif mode == nmt.POLL:
            if (py and lp == 2) or (not py and not pt and not mv):
                key += "_NOVER"
            elif (py and lp == 4) or (not py and pt and not mv):
                key += "_INTFNOVER"
            elif (py and lp == 5) or (not py and pt and mv):
                key += "_INTF"
        return key
''', '''        base = 2 if mode == nmt.POLL else 3
        if py:
            sfx = {base: "_NOVER", base + 2: "_INTFNOVER", base + 3: "_INTF"}.get(lp, "")
        elif pt:
            sfx = "_INTF" if mv else "_INTFNOVER"
        else:
            sfx = "" if mv else "_NOVER"
        return key + sfx
''')])
F["ctor"] = (["C07", "C24", "C15", "C02", "C21"], [(M, '''        if talker not in nmt.NMEA_TALKERS:
            if self._validate & nmt.VALMSGID:
                raise nme.NMEAMessageError(f"Unknown talker {talker}.")
        if msgID in nmt.NMEA_MSGIDS:
            self._defsource = nmt.DEF_STND  # standard
        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:
            self._defsource = nmt.DEF_PROP  # proprietary
        elif msgID in self._userdefined:
            self._defsource = nmt.DEF_USER  # user-defined
        else:
            self._defsource = nmt.DEF_UNKN  # unrecognised
            if self._validate & nmt.VALMSGID:
                raise nme.NMEAMessageError(
                    f"Unknown msgID {talker}{msgID}, msgmode {('GET','SET','POLL')[msgmode]}."
                )
''', '''        strict = bool(self._validate & nmt.VALMSGID)
        if strict and talker not in nmt.NMEA_TALKERS:
            raise nme.NMEAMessageError(f"Unknown talker {talker}.")
        self._defsource = self._find_source(msgID)
        if strict and self._defsource == nmt.DEF_UNKN:
            raise nme.NMEAMessageError(
                f"Unknown msgID {talker}{msgID}, msgmode {('GET','SET','POLL')[msgmode]}."
            )
'''), (M, '''    def _do_attributes(self''', '''    def _find_source(self, msgID):
        if msgID in nmt.NMEA_MSGIDS:
            return nmt.DEF_STND
        if any(msgID in t for t in (nmt.NMEA_MSGIDS_PROP, nmt.NMEA_PREFIX_PROP)):
            return nmt.DEF_PROP
        return nmt.DEF_USER if msgID in self._userdefined else nmt.DEF_UNKN

    def _do_attributes(self''')])
F["identity"] = (["C21", "C20", "C06"], [(M, '''        if (
            self._talker == "P"
            and self._msgID in nmt.NMEA_PREFIX_PROP
            and hasattr(self, "msgId")
        ):
            return self._talker + self._msgID + self.msgId
        return self._talker + self._msgID
''', '''        ident = f"{self.talker}{self.msgID}"
        if self.talker == "P" and self.msgID in nmt.NMEA_PREFIX_PROP:
            ident += getattr(self, "msgId", "")
        return ident
''')])
F["parse"] = (["C01", "C02", "C15", "C06", "C14"], [(R, '''            content, talker, msgid, payload, checksum = get_parts(message)
            if validate & VALCKSUM:
                ccksum = calc_checksum(content)
                if checksum.upper() != ccksum:
                    raise nme.NMEAParseError(
                        f"Message {talker}{msgid} invalid checksum {checksum}"
                        f" - should be {ccksum}."
                    )
''', '''            content, talker, msgid, payload, checksum = get_parts(message)
            expected = calc_checksum(content) if validate & VALCKSUM else None
            if expected is not None and expected != checksum.upper():
                raise nme.NMEAParseError(
                    f"Message {talker}{msgid} invalid checksum {checksum}"
                    f" - should be {expected}."
                )
''')])
F["read"] = (["C14", "C15", "C16", "C27", "C26"], [(R, '''        parsing = True
        raw_data = None
        parsed_data = None

        while parsing:  # loop until end of valid NMEA message or EOF
            try:
                byte1 = self._read_bytes(1)  # read 1st byte
                if byte1 != b"\\x24":  # not NMEA, discard and continue
                    continue
                byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
                while byte2 == byte1:  # stray "$", header may start at the next one
                    byte2 = self._read_bytes(1)
                bytehdr = byte1 + byte2
                if bytehdr in NMEA_HDR:  # it's a NMEA message
                    byten = self._read_line()  # NMEA protocol is CRLF terminated
                    raw_data = bytehdr + byten
                    parsed_data = self.parse(
                        raw_data,
                        msgmode=self._mode,
                        validate=self._validate,
                        userdefined=self._userdefined,
                    )
                    parsing = False
                else:  # it's not a NMEA message (UBX or something else)
                    if self._nmea_only:  # raise error and quit
                        raise nme.NMEAParseError(f"Unknown protocol header {bytehdr}.")

            except EOFError:
                return (None, None)
''', '''        while True:  # loop until end of valid NMEA message or EOF
            try:
                header = self._find_header()
                if header in NMEA_HDR:
                    raw_data = b"".join((header, self._read_line()))
                    return raw_data, self.parse(
                        raw_data,
                        self._mode,
                        self._validate,
                        self._userdefined,
                    )
                if self._nmea_only:  # raise error and quit
                    raise nme.NMEAParseError(f"Unknown protocol header {header}.")
            except EOFError:
                return (None, None)
'''), (R, '''                if self._quitonerror:
                    self._do_error(err)
                continue

        return (raw_data, parsed_data)
''', '''                if self._quitonerror:
                    self._do_error(err)

    def _find_header(self) -> bytes:
        """Two byte header starting at the next "$"."""

        while self._read_bytes(1) != b"$":
            pass
        second = b"$"
        while second == b"$":
            second = self._read_bytes(1)
        return b"$" + second
''')])
F["iter"] = (["C16", "C15"], [(R, '''        raw_data, parsed_data = self.read()
        if raw_data is None and parsed_data is None:
            raise StopIteration
        return (raw_data, parsed_data)
''', '''        item = self.read()
        if item == (None, None):
            raise StopIteration()
        return item
'''), (R, '''        data = self._stream.read(size)
        if len(data) == 0:  # EOF
            raise EOFError()  # pragma: no cover
        if 0 < len(data) < size:  # truncated stream
''', '''        data = self._stream.read(size)
        if not data:  # EOF
            raise EOFError()  # pragma: no cover
        if len(data) < size:  # truncated stream
'''), (R, '''        if data[-1:] != b"\\x0a":  # truncated stream
''', '''        if not data.endswith(b"\\n"):  # truncated stream
''')])
F["do_error"] = (["C15"], [(R, '''        if self._quitonerror == ERR_RAISE:
            raise err from err
        if self._quitonerror == ERR_LOG:
            # pass to error handler if there is one
            if self._errorhandler is None:
                self._logger.error(err)
            else:
                self._errorhandler(err)
''', '''        if self._quitonerror == ERR_LOG:
            handler = self._logger.error if self._errorhandler is None else self._errorhandler
            handler(err)
        elif self._quitonerror == ERR_RAISE:
            raise err
''')])
F["sock_read"] = (["C16", "C17", "C26"], [(W, '''        while len(self._buffer) < num:
            if not self._recv():
                return b""
        data = self._buffer[:num]
        self._buffer = self._buffer[num:]
        return bytes(data)
''', '''        while True:
            if len(self._buffer) >= num:
                break
            if not self._recv():
                return b""
        data = bytes(self._buffer[:num])
        del self._buffer[:num]
        return data
'''), (W, '''        line = b""
        while True:
            data = self.read(1)
            if len(data) == 1:
                line += data
                if line[-2:] == b"\\r\\n":
                    break
            else:
                break

        return line
''', '''        line = bytearray()
        while not line.endswith(b"\\r\\n"):
            data = self.read(1)
            if not data:
                break
            line += data
        return bytes(line)
'''), (W, '''            data = self._socket.recv(self._bufsize)
            if len(data) == 0:
                return False
            if self._encoding & ENCODE_CHUNKED:
                data = self._partial + data
                chunks, self._partial = self.dechunk(data)
                self._buffer += chunks
            else:
                self._buffer += data
        except (OSError, TimeoutError):
            return False
        return True
''', '''            data = self._socket.recv(self._bufsize)
        except OSError:
            return False
        if not data:
            return False
        if self._encoding & ENCODE_CHUNKED:
            data, self._partial = self.dechunk(self._partial + data)
        self._buffer.extend(data)
        return True
''')])
F["dechunk"] = (["C17", "C26"], [(W, '''                try:  # pragma: no cover
                    if self._encoding & ENCODE_GZIP:
                        chunk = decompress(chunk, wbits=MAX_WBITS | 16)
                    if self._encoding & ENCODE_COMPRESS:
                        chunk = decompress(chunk, wbits=MAX_WBITS)
                    if self._encoding & ENCODE_DEFLATE:
                        chunk = decompress(chunk, wbits=-MAX_WBITS)
                except zlibError as err:  # pragma: no cover
                    self.logger.error(f"Error decompressing data: {err}")
                    # parser will discard data
                chunks += chunk

            if chunk_length == 0:
                # final chunk
                instream.readline()
                break

        return chunks, partial
''', '''                chunks += self._decompress(chunk)
            else:
                # final chunk
                instream.readline()
                break

        return chunks, partial

    def _decompress(self, chunk: bytes) -> bytes:
        """
        Undo the content encodings of a chunk.
        """
        # pylint: disable=logging-fstring-interpolation

        try:
            for flag, bits in (
                (ENCODE_GZIP, MAX_WBITS | 16),
                (ENCODE_COMPRESS, MAX_WBITS),
                (ENCODE_DEFLATE, -MAX_WBITS),
            ):
                if self._encoding & flag:
                    chunk = decompress(chunk, wbits=bits)
        except zlibError as err:
            self.logger.error(f"Error decompressing data: {err}")
        return chunk
''')])
F["logging"] = (["C26", "C15"], [(W, '''self.logger.error(f"Error decompressing data: {err}")''', '''self.logger.error("Error decompressing data: %s", err)'''), (R, '''self._logger.error(err)''', '''self._logger.error("%s", err)''')])
F["nomval"] = (["C13", "C05"], [(M, '''        if att in (nmt.CH, nmt.ST, nmt.LA, nmt.LN):
            val = ""
        elif att == nmt.LAD:  # pragma: no cover
            val = "N"
        elif att == nmt.LND:  # pragma: no cover
            val = "E"
        elif att == nmt.HX:
            val = "0"
        elif att == nmt.DE:
            val = 0.0
        elif att == nmt.IN:
            val = 0
        elif''', '''        fixed = {
            nmt.CH: "", nmt.ST: "", nmt.LA: "", nmt.LN: "", nmt.LAD: "N", nmt.LND: "E",
            nmt.HX: "0", nmt.DE: 0.0, nmt.IN: 0,
        }
        if att in fixed:
            val = fixed[att]
        elif''')])
F["time"] = (["C11", "C04"], [(H, '''        if len(times) == 6:  # decimal seconds is omitted
            times = times + ".00"
        if times.find(".") != 6:
            raise ValueError()
        utc = datetime.strptime(times, "%H%M%S.%f")
        return utc.time()
''', '''        if len(times) == 6:  # decimal seconds is omitted
            times += ".00"
        if times.index(".") != 6:
            return ""
        return datetime.strptime(times, "%H%M%S.%f").time()
'''), (H, '''        return tim.strftime("%H%M%S.%f")[0:9]
''', '''        return f"{tim:%H%M%S.%f}"[:9]
''')])
F["noop"] = (["C%02d" % i for i in range(1, 28) if i != 25], [(H, '''    cksum = 0
''', '''    cksum = 0
    _unused = None
'''), (M, '''        lp = len(self._payload)
''', '''        lp = len(self._payload)
        _ = lp
''')])


def apply(name, dest):
    for f, a, b in F[name][1]:
        p = os.path.join(dest, "src/pynmeagps", f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        assert a in s, (name, f, a[:80])
        s = s.replace(a, b)
        if crlf: s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)


if __name__ == "__main__":
    if sys.argv[1] == "--list":
        for n in F: print(n, *F[n][0])
    else:
        apply(sys.argv[1], sys.argv[2])
