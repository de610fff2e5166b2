"""Planted bugs: edits of original lines, and a demonstration each."""
M, H, R, W, G, P, GP = "nmeamessage.py", "nmeahelpers.py", "nmeareader.py", "socketwrapper.py", "nmeatypes_get.py", "nmeatypes_poll.py", "nmeatypes_get_prop.py"
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=([edits] if isinstance(edits, tuple) else edits) + k.pop("also", []), demo=demo, needs=needs, breaks=breaks, **k))


seed("c01-flags", "C01", (R, "            if validate & VALCKSUM:\n", "            if validate == VALCKSUM:\n"), """
from pynmeagps import NMEAReader, NMEAParseError
try: NMEAReader.parse("$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*69\\r\\n", validate=3)
except NMEAParseError: sys.exit(0)
sys.exit(1)
""", "validate = VALCKSUM | VALMSGID and a wrong checksum", "checksums are not checked when message identities are validated too")
seed("c04-type", "C04", (G, '        "stbdstatus": CH,\n        "portangle": DE,\n', '        "stbdstatus": CH,\n        "portangle": IN,\n'), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$GNRSA,10.5,A,-4.5,A*00\\r\\n", validate=0)
assert m.portangle == -4.5
""", "an RSA sentence", "port rudder angle is taken as an integer")
seed("c05-nest", "C05", (M, '                keyr += f"_{i:02d}"\n', '                keyr = f"{key}_{i:02d}"\n'), """
from pynmeagps import NMEAReader
d = {"ZZZ": {"n": "IN", "g": ("n", {"a": "IN", "h": (2, {"b": "ST"})})}}
m = NMEAReader.parse("$GNZZZ,2,1,x,y,2,z,w*00\\r\\n", validate=0, userdefined=d)
assert m.b_01_02 == "y" and m.b_02_01 == "z", m
""", "a user-defined message with a group inside a group", "items of nested groups are numbered by the inner index only, so they overwrite each other")
seed("c06-case", "C06", (M, '        output += f"*{self._checksum}\\r\\n"\n', '        output += f"*{self._checksum.upper()}\\r\\n"\n'), """
from pynmeagps import NMEAReader
s = b"$GNTHS,,A*0e\\r\\n"
c = 0
for x in s[1:-5]: c ^= x
s = s[:-4] + (b"%02x" % c) + b"\\r\\n"
for k in range(40):
    s = b"$GNTHS,%d,A" % k
    c = 0
    for x in s[1:]: c ^= x
    s += b"*%02x\\r\\n" % c
    assert NMEAReader.parse(s).serialize() == s
""", "a sentence whose checksum is in lower-case hex", "serialize() changes the case of the checksum")
seed("c07-dec", "C07", (M, "        elif att == nmt.DE:\n            vals = str(val)\n", "        elif att == nmt.DE:\n            vals = str(round(val, 8)) if isinstance(val, float) else str(val)\n"), """
from pynmeagps import NMEAMessage, NMEAReader
m = NMEAMessage("GN", "THS", 0, headt=12.3456789012, mi="A")
assert NMEAReader.parse(m.serialize()).headt == 12.3456789012
""", "a decimal with more than 8 decimals", "decimals are cut in the generated payload")
seed("c08-lone", "C08", (M, '            self._posatt.pop(nmt.LA if att == nmt.LAD else nmt.LN, None)\n', '            pass\n') if False else (G, '        "targetlon": LN,\n        "targetlonEW": LND,\n        "targetname": ST,\n', '        "targetlon": LN,\n        "targetlonEW": CH,\n        "targetname": ST,\n'), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$GNTLL,1,5327.0,N,00214.0,W,x,120000.00,T,R*00\\r\\n", validate=0)
assert m.targetlon < 0
""", "a TLL sentence west of Greenwich", "target longitude west is positive")
seed("c10-zero", "C10", (H, "        ddd += 0.0 if dms[x] == \"\" else float(dms[x]) / pow(60, x)\n", "        ddd += 0.0 if dms[x] == \"\" else round(float(dms[x]) / pow(60, x), 6)\n"), """
from pynmeagps.nmeahelpers import dms2deg, deg2dms
for k in range(0, 100):
    d = 12 + k * 0.0012347
    assert abs(dms2deg(deg2dms(round(d, 7), "LA")) - round(d, 7)) < 1.5e-7, d
""", "seconds whose sixth decimal of a degree is not exact", "converting back loses 0.05 seconds")
seed("c11-cs", "C11", (H, '        return tim.strftime("%H%M%S.%f")[0:9]\n', '        return f"{tim.strftime(\'%H%M%S\')}.{round(tim.microsecond / 10000):02d}"\n'), """
from datetime import time
from pynmeagps.nmeahelpers import time2str
assert time2str(time(1, 2, 3, 999999)) == "010203.99" and len(time2str(time(1, 2, 3, 996000))) == 9
""", "a time within 5 ms of the next second", "the time field has three decimals ('.100')")
seed("c11-dtl", "C11", (M, '                vals = f"{val[6:8]}{val[4:6]}{val[0:4]}"\n', '                vals = f"{val[6:8]}{val[4:6]}20{val[2:4]}"\n'), """
from pynmeagps import NMEAMessage
assert NMEAMessage.val2str("1999-12-31", "DTL") == "31121999"
""", "a ddmmyyyy date of another century given as text", "the century is always 20")
seed("c12-del", "C12", (M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and not (name[0] == \"_\" and name not in self.__dict__):\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates"), """
from pynmeagps import NMEAReader, NMEAMessageError
m = NMEAReader.parse("$GNTHS,,A*00\\r\\n", validate=0)
try: m._cache = 1
except NMEAMessageError: sys.exit(0)
sys.exit(1)
""", "setting a new attribute whose name starts with an underscore", "the message changes after construction")
seed("c14-hdr", "C14", (R, "                if bytehdr in NMEA_HDR:  # it's a NMEA message\n", "                if bytehdr in NMEA_HDR and self._stream is not None and not (raw_data and raw_data[-2:-1] != b\"\\r\"):\n"), """
from io import BytesIO
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum
def s(c, e=b"\\r\\n"): return b"$" + c.encode() + b"*" + calc_checksum(c).encode() + e
st = b"$GNTHS,,A*99\\n" + s("GNTHS,,A")
r = [x for x, y in NMEAReader(BytesIO(st), quitonerror=0)]
assert r == [s("GNTHS,,A")], r
""", "a bad sentence ended by LF alone before a good one", "the good sentence after it is skipped")
seed("c15-err", "C15", (R, "                nme.NMEAParseError,\n                nme.NMEAStreamError,\n            ) as err:\n", "                nme.NMEAParseError,\n            ) as err:\n"), """
from io import BytesIO
from pynmeagps import NMEAReader
r = list(NMEAReader(BytesIO(b"$GNTHS,,A*1f\\r\\n$GNGL"), quitonerror=0))
""", "a stream ending inside a sentence, errors ignored", "NMEAStreamError escapes although errors are to be ignored")
seed("c15-falsy", "C15", (R, "            if self._errorhandler is None:\n", "            if not self._errorhandler:\n"), """
from io import BytesIO
from pynmeagps import NMEAReader
class L(list):
    def __call__(self, e): self.append(e)
l = L()
list(NMEAReader(BytesIO(b"$GNTHS,,A*99\\r\\n"), quitonerror=1, errorhandler=l))
assert len(l) == 1
""", "an error handler object whose truth value is false, such as an empty list subclass", "the handler is not called")
seed("c16-lf", "C16", (W, '                if line[-2:] == b"\\r\\n":\n', '                if data == b"\\n":\n'), """
from pynmeagps.socketwrapper import SocketWrapper
class S:
    def __init__(self, d): self.d = d
    def recv(self, n): r, self.d = self.d[:n], self.d[n:]; return r
w = SocketWrapper(S(b"a\\nb\\r\\nc\\r\\n"))
assert w.readline() == b"a\\nb\\r\\n"
""", "a line with a LF inside", "readline() stops at the LF")
seed("c17-strip", "C17", (W, "                # premature end of length bytes\n                partial = length_bytes\n", "                # premature end of length bytes\n                partial = length_bytes.rstrip(b\"\\r\")\n"), """
from pynmeagps.socketwrapper import SocketWrapper
class S:
    def __init__(self, *d): self.d = list(d)
    def recv(self, n): return self.d.pop(0) if self.d else b""
w = SocketWrapper(S(b"3\\r", b"\\nabc\\r\\n0\\r\\n\\r\\n"), encoding=1)
assert w.read(3) == b"abc"
""", "a segment ending between CR and LF of a chunk-size line", "the chunk is lost")
seed("c17-hex", "C17", (W, "                chunk_length = int(length_bytes.strip(), 16)\n", "                chunk_length = int(length_bytes.strip().lstrip(b\"0\") or b\"0\", 16) if len(length_bytes) < 6 else int(length_bytes.strip())\n"), """
from pynmeagps.socketwrapper import SocketWrapper
class S:
    def __init__(self, *d): self.d = list(d)
    def recv(self, n): return self.d.pop(0) if self.d else b""
w = SocketWrapper(S(b"0010\\r\\n" + b"a" * 16 + b"\\r\\n0\\r\\n\\r\\n"), encoding=1)
assert w.read(16) == b"a" * 16
""", "a chunk size written with four digits", "the size is taken as decimal")
seed("c18-zone", "C18", (H, "    ls = 0 if gnss == GLO else leapsecond(utc, gnss)\n", "    ls = 0 if gnss == GLO else leapsecond(utc.replace(tzinfo=timezone.utc), gnss)\n"), """
from datetime import datetime, timezone, timedelta
from pynmeagps.nmeahelpers import utc2wnotow, wnotow2utc
d = datetime(2017, 1, 1, 5, 0, 0, tzinfo=timezone(timedelta(hours=8)))
w, t, l = utc2wnotow(d, modwno=False)
assert l == 17 and wnotow2utc(w, t, modwno=False) == d
""", "a datetime in another timezone within hours of a leap second", "the leapsecond offset of the local wall clock is used")
seed("c18-round", "C18", (H, "    ls = 0 if gnss == GLO else leapsecond(utc, gnss)\n", "    ls = 0 if gnss == GLO else leapsecond(utc.replace(microsecond=0), gnss)\n    utc = utc.replace(microsecond=round(utc.microsecond, -3) % 1000000)\n"), """
from datetime import datetime, timezone, timedelta
from pynmeagps.nmeahelpers import utc2wnotow, wnotow2utc
d = datetime(2020, 3, 1, 1, 1, 1, 999600, tzinfo=timezone.utc)
w, t, l = utc2wnotow(d, modwno=False)
assert timedelta(0) <= d - wnotow2utc(w, t, modwno=False) < timedelta(milliseconds=1)
""", "an instant within half a millisecond of the next second", "time of week is a second early")
seed("c20-mode", "C20", (M, '            f"{self._mode}, payload={self._payload})"\n', '            f"{self._mode and 1}, payload={self._payload})"\n'), """
from pynmeagps import NMEAReader, NMEAMessage
m = NMEAReader.parse("$EIGNQ,RMC*24\\r\\n", msgmode=2, validate=0)
assert eval(repr(m)).msgmode == 2
""", "repr of a poll message", "the mode comes back as SET")
seed("c20-strip", "C20", (M, '            f"{self._mode}, payload={self._payload})"\n', '            f"{self._mode}, payload={\',\'.join(self._payload).split(\',\')})"\n'), """
from pynmeagps import NMEAReader, NMEAMessage
for m in (NMEAReader.parse("$PUBX,00*33\\r\\n", validate=0), NMEAMessage("GN", "THS", 0, headt=1.5, mi="a,b"), NMEAMessage("GN", "ZZZ", 0)):
    assert eval(repr(m)).payload == m.payload, m
""", "a message without fields, or a generated text with a comma", "the payload comes back different")
seed("c21-nak", "C21", (M, '            elif lp == 2 and self._payload[0] == "ERROR":\n', '            elif lp >= 2 and self._payload[0].upper() == "ERROR":\n'), """
from pynmeagps import NMEAReader
import pynmeagps.nmeatypes_get_prop as g
m = NMEAReader.parse("$PQTMCFGSVIN,ERROR,1,2,3,4,5,6*00\\r\\n", validate=0)
assert "x" in m.__dict__ or "ecefx" in str(m).lower() or len([a for a in m.__dict__ if a[0] != "_"]) > 2, m
""", "a Quectel response with first field ERROR and more than one further field", "it is decoded as NAK and the other fields are lost")
seed("c22-brng", "C22", (H, "    brng = (theta * 180 / pi + 360) % 360\n", "    brng = theta * 180 / pi + (360 if theta < 0 else 0)\n"), """
from pynmeagps.nmeahelpers import bearing
assert bearing(0.0, 1e-15, 50.0, 0.0) < 360
""", "a bearing a hair west of due north", "bearing() returns 360.0")
seed("c22-area", "C22", (H, "    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180\n", "    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * ((lon2 - lon1) % 360) / 180\n"), """
from pynmeagps.nmeahelpers import area
assert area(10, 20, 30, 40) == area(30, 40, 10, 20)
""", "positions given east to west", "area is that of the rest of the band")
seed("c23-round", "C23", (H, "        return knots * KNOTSCONV[unit.upper()]\n", "        return round(knots * KNOTSCONV[unit.upper()], 6)\n"), """
from pynmeagps.nmeahelpers import knots2spd
assert abs(knots2spd(1e-5, "KMPH") - 1.852e-5) < 1e-7 * 1e-2 * 1.8
""", "very low speeds", "speeds lose their digits")
seed("c23-unit", "C23", (H, "        return knots * KNOTSCONV[unit.upper()]\n", "        return knots * KNOTSCONV[unit if unit in KNOTSCONV else unit.upper().rstrip(\"S\")]\n"), """
from pynmeagps.nmeahelpers import knots2spd
try: knots2spd(1, "mphs")
except KeyError: sys.exit(0) if abs(knots2spd(10, "ms") - 5.14) < .01 else sys.exit(1)
sys.exit(1)
""", "a unit name in lower case ending in s", "m/s and ft/s in lower case raise KeyError, unknown plurals pass")
seed("c24-over", "C24", (M, "        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:\n", "        elif msgID not in self._userdefined and (\n            msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP\n        ):\n"), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$PGRMZ,93,f,3*21\\r\\n", userdefined={"GRMZ": {"x": "ST", "y": "ST", "z": "ST"}})
assert not hasattr(m, "x"), m
""", "a user-defined dictionary with a built-in proprietary identity", "the built-in definition is replaced")
seed("c26-crlf", "C26", (W, "                        chunk = decompress(chunk, wbits=-MAX_WBITS)\n", "                        chunk = decompress(chunk.rstrip(b\"\\r\\n\"), wbits=-MAX_WBITS)\n"), """
import zlib
from pynmeagps.socketwrapper import SocketWrapper
class S:
    def __init__(self, *d): self.d = list(d)
    def recv(self, n): return self.d.pop(0) if self.d else b""
c = zlib.compressobj(0, zlib.DEFLATED, -15)
d = c.compress(b"abc\\r\\n") + c.flush()
w = SocketWrapper(S(b"%x\\r\\n%s\\r\\n0\\r\\n\\r\\n" % (len(d), d)), encoding=9)
assert w.read(5) == b"abc\\r\\n"
""", "a deflated chunk whose last byte is CR or LF", "the chunk no longer decompresses")
seed("c26-gz", "C26", (W, "                        chunk = decompress(chunk, wbits=MAX_WBITS)\n", "                        chunk = decompress(chunk, wbits=MAX_WBITS) or chunk\n"), """
import zlib
from pynmeagps.socketwrapper import SocketWrapper
class S:
    def __init__(self, *d): self.d = list(d)
    def recv(self, n): return self.d.pop(0) if self.d else b""
d, e = zlib.compress(b""), zlib.compress(b"abc")
w = SocketWrapper(S(b"%x\\r\\n%s\\r\\n%x\\r\\n%s\\r\\n0\\r\\n\\r\\n" % (len(d), d, len(e), e)), encoding=5)
assert w.read(3) == b"abc"
""", "a compressed chunk with an empty body", "the compressed bytes themselves are delivered")
seed("c03-list", "C03", (M, "        for i in range(rng):\n", "        for i in list(range(rng)):\n"), """
import resource
resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
from pynmeagps import NMEAReader
m = NMEAReader.parse("$GNGSV,1,1,2000000000,05,23,226,37*00\\r\\n", validate=0)
import pynmeagps.nmeatypes_get as g
for k, v in g.NMEA_PAYLOADS_GET.items():
    for n, w in v.items():
        if isinstance(w, tuple) and isinstance(w[0], str) and w[0] != "None":
            NMEAReader.parse("$GN%s,%s*00\\r\\n" % (k, ",".join("2000000000" if x == w[0] else "1" for x in v)), validate=0)
""", "a message with a counted group whose count field claims thousands of millions of items", "memory and time proportional to the claim")
seed("c04-int", "C04", (M, "                val = int(vals)\n", "                val = int(float(vals))\n"), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$GNGSV,1,1,9007199254740993*00\\r\\n", validate=0)
assert m.numSV == 9007199254740993
""", "an integer field of more than 15 digits, or one with decimals", "integer fields go through a double: long integers lose digits")
seed("c05-hundred", "C05", (M, '                keyr += f"_{i:02d}"\n', '                keyr += f"_{i % 100:02d}"\n'), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$PSTMDRUPD," + ",".join("%X" % i for i in range(120)) + "*00\\r\\n", validate=0)
assert m.data_120 == "77" and m.data_01 == "0" and m.data_101 == "64", m
""", "a group of 100 or more items", "item 101 overwrites item 01")
seed("c07-or", "C07", (M, "                    val = kwargs.get(keyr, self.nomval(att, self.msgmode))\n", "                    val = kwargs.get(keyr) or self.nomval(att, self.msgmode)\n"), """
from pynmeagps import NMEAMessage
m = NMEAMessage("GN", "GLL", 0, lat=1.5, lon=2.5, time="", status="A", posMode="A")
assert m.payload[4] == "" and m.time == ""
""", "a keyword given as blank (or zero)", "a nominal value (the current time) takes the place of the value supplied")
seed("c13-hundred", "C13", (M, '            setattr(self, f"field_{i+1:02d}", fld)\n', '            setattr(self, f"field_{i % 99 + 1:02d}", fld)\n'), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$GNZZZ," + ",".join("%d" % i for i in range(120)) + "*00\\r\\n", validate=0)
assert m.field_01 == "0" and m.field_120 == "119"
""", "an unknown message of 100 or more fields", "field_100 overwrites field_01")
seed("c16-lost", "C16", (W, "            if not self._recv():\n                return b\"\"\n        data", "            if not self._recv():\n                num = len(self._buffer)\n        data"), """
from pynmeagps.socketwrapper import SocketWrapper
class S:
    def __init__(self, *d): self.d = list(d)
    def recv(self, n):
        x = self.d.pop(0) if self.d else b""
        if x is None: raise TimeoutError()
        return x
w = SocketWrapper(S(b"ab", None, b"cd"))
assert w.read(4) == b"" and w.read(4) == b"abcd"
""", "a timeout in the middle of a read", "read() gives part of what was asked for")
seed("c19-row", "C19", (H, "    (2776982400, 24),  # 1 Jan 1988\n", "    (2761171200, 24),  # 1 Jul 1987\n"), """
from datetime import datetime, timezone
from pynmeagps.nmeahelpers import leapsecond
assert leapsecond(datetime(1987, 9, 1, tzinfo=timezone.utc)) == 4
""", "an instant in the second half of 1987", "a leapsecond that was never inserted then")
seed("c19-naive", "C19", (H, "    if dat.tzinfo is None:\n        dat = dat.replace(tzinfo=timezone.utc)\n", "    if dat.tzinfo is None:\n        dat = dat.astimezone(timezone.utc)\n"), """
import os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
from datetime import datetime
from pynmeagps.nmeahelpers import leapsecond
assert leapsecond(datetime(2016, 12, 31, 22, 0, 0)) == 17
""", "a naive datetime within hours of a leapsecond on a machine whose local time is not UTC", "naive datetimes are taken as local time")
seed("c01-ascii", "C01", (H, '    return f"{cksum:02X}"\n', '    return f"{cksum & 0x7F:02X}"\n'), """
from pynmeagps import NMEAReader, NMEAParseError
try: NMEAReader.parse("$GNTXT,01,01,02,\u00e9*%02X\\r\\n" % (__import__("functools").reduce(lambda a, b: a ^ b, map(ord, "GNTXT,01,01,02,\u00e9")) & 127))
except NMEAParseError: sys.exit(0)
sys.exit(1)
""", "a sentence with a character above 7F", "the top bit of the checksum is dropped")
seed("c02-inf", "C02", [(M, "                val = int(vals)\n", "                val = int(vals) if vals.isdigit() else int(float(vals))\n"), (M, "            OverflowError,\n", "")], """
from pynmeagps import NMEAReader
import pynmeagps
try: NMEAReader.parse("$GNGSV,1,1,inf*00\\r\\n", validate=0)
except (pynmeagps.NMEAParseError, pynmeagps.NMEAMessageError, pynmeagps.NMEATypeError): pass
""", "an integer field 'inf' or '1e999'", "OverflowError escapes parse()")
seed("c27-midnight", "C27", (H, "    current = datetime.now(timezone.utc)\n", "    current = datetime.now(timezone.utc).replace(hour=0, minute=0, second=0, microsecond=0)\n"), """
from datetime import datetime, timezone, timedelta
import pynmeagps.nmeahelpers as h
import time
now = datetime.now(timezone.utc)
if now.hour == 0 and now.minute == 0 and now.second < 5: time.sleep(6)
d = datetime.now(timezone.utc) - timedelta(seconds=2)
w, t, l = h.utc2wnotow(d)
assert abs((h.wnotow2utc(w, t, autoroll=True) - d).total_seconds()) < 1
""", "a time of week earlier today", "the result is a whole rollover too early")
seed("c09-short", "C09", (H, "        if dp < 4:\n", "        if dp < 3:\n"), """
from pynmeagps.nmeahelpers import dmm2ddd
assert dmm2ddd("112.5") == ""
""", "a position text with one digit of degrees", "a malformed position is accepted")
seed("c06-blank", "C06", (M, '            output += "," + att\n', '            output += "," + att.rstrip(" ")\n'), """
from pynmeagps import NMEAReader
s = b"$GNTXT,01,01,02,hello *%02X\\r\\n"
c = 0
for x in s[1:s.index(b"*")]: c ^= x
s = s % c
assert NMEAReader.parse(s).serialize() == s
""", "a field ending in a space", "serialize() drops it")
seed("c25-south", "C25", (H, "    if z < 0.0:\n", "    if z < -1.0:\n"), """
from pynmeagps import llh2ecef, ecef2llh
for lat in (-1e-6, -5e-6):
    a, b, c = ecef2llh(*llh2ecef(lat, 10.0, 100.0))
    assert abs(a - lat) < 1e-9 and abs(c - 100) < 0.001, (lat, a, b, c)
""", "a position less than one metre south of the equator", "latitude comes back with the wrong sign")
seed("c28-trunc", "C28", (M, '                stg += f", {att}={val}"\n', '                stg += f", {att}={val:.255}" if isinstance(val, str) else f", {att}={val}"\n'), """
from pynmeagps import NMEAReader
m = NMEAReader.parse("$GNTXT,01,01,02," + "x" * 300 + "*00\\r\\n", validate=0)
assert "x" * 300 in str(m)
""", "a text field of more than 255 characters", "str() cuts the text short")
seed("c28-desc", "C28", (H, '    return f"Unknown msgID {msgID}"\n', '    return next((v for k, v in NMEA_MSGIDS_PROP.items() if msgID.startswith(k) and len(k) > 3), f"Unknown msgID {msgID}")\n'), """
from pynmeagps import msgdesc
assert msgdesc("QTMUNIQIDX") == "Unknown msgID QTMUNIQIDX"
""", "a text that begins with a proprietary identity", "msgdesc describes it as that identity")
seed("c29-ud", "C29", (M, "        self._userdefined = {} if userdefined is None else userdefined\n", "        if userdefined is not None:\n            NMEAMessage.USERDEFINED.update(userdefined)\n        self._userdefined = NMEAMessage.USERDEFINED\n"), """
from pynmeagps import NMEAReader
s = "$GNZZQ,1,2*00\\r\\n"
a = str(NMEAReader.parse(s, validate=0))
NMEAReader.parse("$GNTHS,,A*00\\r\\n", validate=0, userdefined={"ZZQ": {"x": "IN", "y": "IN"}})
assert str(NMEAReader.parse(s, validate=0)) == a
""", "a message parsed after another one that was given a user-defined dictionary", "user-defined definitions stay in force for later messages", also=[(M, '    """NMEA GNSS/GPS Message Class."""\n', '    """NMEA GNSS/GPS Message Class."""\n\n    USERDEFINED = {}\n')])
seed("c29-desc", "C29", (H, '    return f"Unknown msgID {msgID}"\n', '    return NMEA_MSGIDS.setdefault(msgID, f"Unknown msgID {msgID}")\n'), """
from pynmeagps import NMEAReader, msgdesc
s = "$GNZZQ,1,2*00\\r\\n"
a = str(NMEAReader.parse(s, validate=0))
msgdesc("ZZQ")
assert str(NMEAReader.parse(s, validate=0)) == a
""", "msgdesc() called for an unknown identity before a message of that type is parsed", "the type counts as known from then on")
seed("c29-ls", "C29", (H, "    if totsec(dat) < LEAPSECONDS[0][0]:\n        return 0\n\n    dts = []\n    for dt in (dat, ep0):\n        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))\n    return dts[0] - dts[1]\n",
"    if totsec(dat) < LEAPSECONDS[0][0]:\n        return 0\n\n    if (dat.date(), gnss) not in _LSDAY:\n        dts = []\n        for dt in (dat, ep0):\n            dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))\n        _LSDAY[(dat.date(), gnss)] = dts[0] - dts[1]\n    return _LSDAY[(dat.date(), gnss)]\n"), """
from pynmeagps.nmeahelpers import leapsecond
from datetime import datetime, timezone, timedelta
e = timezone(timedelta(hours=1))
assert leapsecond(datetime(2017, 1, 1, 0, 30, tzinfo=e)) == 17 and leapsecond(datetime(2017, 1, 1, 2, 0, tzinfo=e)) == 18
""", "two times of the same local day, either side of a leapsecond, in a time zone other than UTC", "the offset of the first one is returned for both", also=[(H, "def leapsecond(dat", "_LSDAY = {}\n\n\ndef leapsecond(dat")])
