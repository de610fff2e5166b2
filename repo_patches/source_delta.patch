From f2e5e7c0c2325751b4ae923b40fbf69074d53c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 01/25] fix: proprietary sentence without first field no longer
 escapes as IndexError

---
 src/pynmeagps/nmeamessage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..d2cb494 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -306,7 +306,7 @@ class NMEAMessage:
         try:
             if key in nmt.NMEA_PREFIX_PROP:  # proprietary, first element is msgId
                 if self._streaming:
-                    if key == "ASHR" and self._payload[0][1].isdigit():
+                    if key == "ASHR" and self._payload[0][1:2].isdigit():
                         pass  # exception for PASHR pitch and roll sentence without msgId
                     else:
                         key += self._payload[0]
@@ -330,7 +330,7 @@ class NMEAMessage:
                     dic = nms.NMEA_PAYLOADS_SET[key]
                 else:
                     dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
+        except (IndexError, KeyError) as err:  # unknown or missing msgid
             erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
             if self._validate & nmt.VALMSGID:
                 raise nme.NMEAMessageError(erm) from err
-- 
2.43.0


From 1e1eac1885423898fa1da827f5baa1e423f3db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 02/25] fix: repeat count beyond the end of the payload no
 longer drives parsing on

---
 src/pynmeagps/nmeamessage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index d2cb494..3fbf184 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -200,10 +200,12 @@ class NMEAMessage:
             else:
                 rng = groupsize(**kwargs)
         else:  # number of repeats is defined in named attribute
-            rng = getattr(self, numr)
+            rng = getattr(self, numr, 0) or 0
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
+            if self._streaming and pindex >= len(self._payload):
+                break  # no more fields in payload
             gindex[-1] = i + 1
             for key1 in attd.keys():
                 pindex, gindex = self._set_attribute(
-- 
2.43.0


From 97e203ba58d21d10bc745f55c8b3ac5693f3d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 03/25] fix: unknown or undefined messages get a checksum when
 constructed

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3fbf184..ea0fdba 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -128,7 +128,7 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From 83709ccd6cfc1663db2d2dc62b3d1e52403d0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 04/25] fix: decode DTL (ddmmyyyy) date attributes

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index ea0fdba..0843c8d 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -732,7 +732,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From 066f0e7248a898fba8c03a5c04c1048e041caf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 05/25] fix: PSSNSNC payload is left as received

---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 0843c8d..b66c694 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -242,11 +242,9 @@ class NMEAMessage:
             # all attribute values have been provided
             if self._streaming:
                 # remove group delimiters in proprietary PSSNSNC message
-                if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
                 val = self._payload[pindex]
+                if self.identity == "PSSNSNC":
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 6668f4012768f792380ef85b6c6876c03e144c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 06/25] fix: message attributes cannot be deleted after
 construction

---
 src/pynmeagps/nmeamessage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index b66c694..2a9d4b4 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -621,6 +621,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
-- 
2.43.0


From 11ddd521cf09128dc875f9ed04d90fbbe3845cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 07/25] fix: repr escapes talker and message identity

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 2a9d4b4..571bcbc 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -601,7 +601,7 @@ class NMEAMessage:
         """
 
         return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"NMEAMessage({self._talker!r},{self._msgID!r}, "
             f"{self._mode}, payload={self._payload})"
         )
 
-- 
2.43.0


From 2f297dc60089fa2bef973efe08fe12f4bde9352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 08/25] fix: user-defined definitions are looked up by the
 identity as given

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 571bcbc..a50da9b 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -322,7 +322,7 @@ class NMEAMessage:
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
+                dic = self._userdefined[self._msgID]
             else:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
-- 
2.43.0


From b3f709712e092c3152369e3b6b966c7cd6ee1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 09/25] fix: PTNL GGKx sentences find their definition

---
 src/pynmeagps/nmeatypes_get_prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeatypes_get_prop.py b/src/pynmeagps/nmeatypes_get_prop.py
index b9f76e1..326f299 100644
--- a/src/pynmeagps/nmeatypes_get_prop.py
+++ b/src/pynmeagps/nmeatypes_get_prop.py
@@ -815,7 +815,7 @@ NMEA_PAYLOADS_GET_PROP = {
         "height": ST,  # starts with "EHT-"
         "hunit": CH,  # 'M'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # "GGK"
         "utctime": TM,
         "utcdate": DT,
-- 
2.43.0


From 0777673d7f181d24ee7c795408795ddbcd9e6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 10/25] fix: all Quectel command responses are recognised as
 ACK or NAK

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index a50da9b..4a4a3a3 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -360,7 +360,7 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
+        if key[0:3] == "QTM":
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
-- 
2.43.0


From aa1e7a350229a38cb6b03f6430e76100f505be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 11/25] fix: group item names may contain underscores

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..df7451d 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -457,8 +457,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = a.rsplit("_", 1)
+        if len(ai) > 1 and ai[1].isdigit():
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From dd88b40a049636a9223f4eedea43325529e9ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 12/25] fix: hemisphere letters give the sign of the position
 they follow, whatever its name

---
 src/pynmeagps/nmeamessage.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 4a4a3a3..3ac17b8 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -120,6 +120,7 @@ class NMEAMessage:
         pindex = 0  # payload index
         gindex = []  # (nested) grouped attribute indices
         key = ""
+        self._posatt = {}  # position attributes awaiting their hemisphere letter
 
         try:
             self._payload = kwargs.get("payload", [])
@@ -249,14 +250,16 @@ class NMEAMessage:
             # some attribute values have been provided,
             # the rest will be set to a nominal value
             else:
-                if att == nmt.LND and hasattr(self, "lon"):
-                    if isinstance(self.lon, (int, float)):
-                        val = "W" if self.lon < 0 else "E"
+                if att == nmt.LND and nmt.LN in self._posatt:
+                    lon = getattr(self, self._posatt[nmt.LN])
+                    if isinstance(lon, (int, float)):
+                        val = "W" if lon < 0 else "E"
                     else:  # pragma: no cover
                         val = "E"
-                elif att == nmt.LAD and hasattr(self, "lat"):
-                    if isinstance(self.lat, (int, float)):
-                        val = "S" if self.lat < 0 else "N"
+                elif att == nmt.LAD and nmt.LA in self._posatt:
+                    lat = getattr(self, self._posatt[nmt.LA])
+                    if isinstance(lat, (int, float)):
+                        val = "S" if lat < 0 else "N"
                     else:  # pragma: no cover
                         val = "N"
                 else:
@@ -272,12 +275,21 @@ class NMEAMessage:
         setattr(self, keyr, val)  # add attribute to NMEAMessage object
         if self._streaming:
             # override sign of lat/lon according to NS and EW values
-            if att == nmt.LND and hasattr(self, "lon"):
-                if isinstance(self.lon, (int, float)):
-                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
-            elif att == nmt.LAD and hasattr(self, "lat"):
-                if isinstance(self.lat, (int, float)):
-                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
+            if att == nmt.LND and nmt.LN in self._posatt:
+                lon = getattr(self, self._posatt[nmt.LN])
+                if isinstance(lon, (int, float)):
+                    lon = -abs(lon) if val == "W" else abs(lon)
+                    setattr(self, self._posatt[nmt.LN], lon)
+            elif att == nmt.LAD and nmt.LA in self._posatt:
+                lat = getattr(self, self._posatt[nmt.LA])
+                if isinstance(lat, (int, float)):
+                    lat = -abs(lat) if val == "S" else abs(lat)
+                    setattr(self, self._posatt[nmt.LA], lat)
+        # a hemisphere letter belongs to the latest position of its kind
+        if att in (nmt.LA, nmt.LN):
+            self._posatt[att] = keyr
+        elif att in (nmt.LAD, nmt.LND):
+            self._posatt.pop(nmt.LA if att == nmt.LAD else nmt.LN, None)
         pindex += 1  # move on to next attribute in payload definition
 
         return pindex
-- 
2.43.0


From 39fb6d4163a1f5ad3bddd0a27b94078d2bddd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 13/25] fix: chunked data is not lost when a segment ends
 before the CRLF of a chunk

---
 src/pynmeagps/socketwrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..a958658 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -168,9 +168,10 @@ class SocketWrapper:
                 break
             if chunk_length != 0:
                 chunk = instream.read(chunk_length)
-                if len(chunk) != chunk_length:
+                chunk_end = instream.readline()
+                if len(chunk) != chunk_length or chunk_end[-1:] != b"\n":
                     # premature end of chunk bytes
-                    partial = length_bytes + chunk
+                    partial = length_bytes + chunk + chunk_end
                     break
                 try:  # pragma: no cover
                     if self._encoding & ENCODE_GZIP:
@@ -184,9 +185,9 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
             if chunk_length == 0:
                 # final chunk
+                instream.readline()
                 break
 
         return chunks, partial
-- 
2.43.0


From 335e7d1eabcfe087b8ea53cc066b43a35df9059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 14/25] fix: week number and time of week are exact and
 consistent with the leapsecond offset

---
 src/pynmeagps/nmeahelpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index df7451d..c53f615 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -773,10 +773,9 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
+    wno, tow = divmod(ts, 604800000)
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
     return wnom if modwno else wno, tow, ls
 
 
@@ -844,6 +843,8 @@ def wnotow2utc(
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
             lps = leapsecond(utc, gnss) if ls is None else ls
+            if ls is None:  # offset in force at the UTC time, not the GNSS time
+                lps = leapsecond(utc - timedelta(seconds=lps), gnss)
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From 46b0eb9d6ff8c71e6eb78fb35a16ff6eba27ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 15/25] fix: NMEA position minutes are never rounded up to 60

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index c53f615..df9df25 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -201,8 +201,8 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
     """
 
     try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting, so that minutes never round up to 60
+        degrees, minutes = divmod(round(abs(degrees) * 60, 7 if hpmode else 5), 60)
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
-- 
2.43.0


From f2c76dbf07c466a31a83dd0ba6fd60c48c6afb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 16/25] fix: degree/minute/second strings are plain decimals
 with minutes and seconds below 60

---
 src/pynmeagps/nmeahelpers.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index df9df25..723ab70 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -219,6 +219,21 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
         return ""
 
 
+def dec2str(val: float, places: int) -> str:
+    """
+    Format decimal in plain (never scientific) notation without
+    trailing zeros e.g. 20.0, 20.76.
+
+    :param float val: decimal value
+    :param int places: maximum decimal places
+    :return: decimal as string
+    :rtype: str
+    """
+
+    dec = f"{val:.{places}f}".rstrip("0")
+    return f"{dec}0" if dec[-1] == "." else dec
+
+
 def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
     """
     Convert decimal degrees to degrees decimal minutes string
@@ -234,12 +249,13 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
     try:
         negative = degrees < 0
         degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting, so that minutes never round up to 60
+        degrees, minutes = divmod(round(degrees * 60, 7), 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+        return f"{int(degrees)}\u00b0{dec2str(minutes,7)}\u2032{sfx}"
     except (TypeError, ValueError):
         return ""
 
@@ -259,13 +275,14 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
     try:
         negative = degrees < 0
         degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
+        # round before splitting, so that seconds never round up to 60
+        minutes, seconds = divmod(round(degrees * 3600, 5), 60)
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{dec2str(seconds,5)}\u2033{sfx}"
     except (TypeError, ValueError):
         return ""
 
-- 
2.43.0


From 1c06ca2c894b8b54c661a85df777cc3afc3bbd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 17/25] fix: ISO6709 altitude has exactly one sign

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 723ab70..be09d2c 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -663,7 +663,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From f2124900cc10f6228073fd35ef836d0377585679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 18/25] fix: haversine of antipodal or coincident positions
 stays in the domain of acos

---
 src/pynmeagps/nmeahelpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index be09d2c..65d9e9a 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -503,9 +503,8 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    dist = radius * acos(max(-1.0, min(1.0, cosd)))
 
     return dist
 
-- 
2.43.0


From 79ff31b69cad5af8c140379ad7a0bc4fb28bfe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 19/25] fix: reader no longer loses a sentence preceded by a
 stray $

---
 src/pynmeagps/nmeareader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..f13c779 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -137,6 +137,8 @@ class NMEAReader:
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
+                while byte2 == byte1:  # stray "$", header may start at the next one
+                    byte2 = self._read_bytes(1)
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
-- 
2.43.0


From a51cbe10335e71fbffa66cd21d96087bc60ff5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 20/25] fix: text which is not a (d)ddmm.mmmmm position decodes
 to blank

---
 src/pynmeagps/nmeahelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 65d9e9a..029b084 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -301,6 +301,8 @@ def dmm2ddd(pos: str) -> float | str:
         dp = pos.find(".")
         if dp < 4:
             raise ValueError()
+        if re.fullmatch(r"[+-]?\d+\.\d*", pos, re.ASCII) is None:
+            raise ValueError()
         posdeg = abs(float(pos[0 : dp - 2]))
         posmin = float(pos[dp - 2 :])
         return round((posdeg + posmin / 60), 10)
-- 
2.43.0


From b9517a7f89e41bc5ce011106024e22602cc18338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 21/25] fix: date and time fields with missing digits decode to
 blank

---
 src/pynmeagps/nmeahelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 029b084..9369fcc 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -179,6 +179,8 @@ def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date
             dform = "%d%m%Y"
         else:
             dform = "%d%m%y"
+        if len(dates) != (8 if form == "DTL" else 6) or not dates.isdigit():
+            raise ValueError()
         utc = datetime.strptime(dates, dform)
         return utc.date()
     except (TypeError, ValueError):
@@ -743,6 +745,8 @@ def time2utc(times: str) -> datetime | str:
     try:
         if len(times) == 6:  # decimal seconds is omitted
             times = times + ".00"
+        if times.find(".") != 6:
+            raise ValueError()
         utc = datetime.strptime(times, "%H%M%S.%f")
         return utc.time()
     except (TypeError, ValueError):
-- 
2.43.0


From e2b480ec02aacc6ac6299c31f6d9f7a96a3bc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 22/25] fix: hex2str pads with zeros to any width

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 9369fcc..c7f2d5d 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -524,7 +524,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From f42af5ae9a957a4ae096d324c776e89d3891d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 23/25] fix: proprietary poll messages find their definition

---
 src/pynmeagps/nmeamessage.py    | 2 ++
 src/pynmeagps/nmeatypes_poll.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3ac17b8..e607539 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -376,6 +376,8 @@ class NMEAMessage:
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
+            if key in nmp.NMEA_PAYLOADS_POLL:  # e.g. u-blox, Garmin, Ashtech
+                return nmp.NMEA_PAYLOADS_POLL[key]
             return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
diff --git a/src/pynmeagps/nmeatypes_poll.py b/src/pynmeagps/nmeatypes_poll.py
index fdca516..b24431a 100644
--- a/src/pynmeagps/nmeatypes_poll.py
+++ b/src/pynmeagps/nmeatypes_poll.py
@@ -197,7 +197,7 @@ NMEA_PAYLOADS_POLL = {
     "TNLGGK": {
         "msgId": ST,  # 'GGK'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # 'GGKx'
     },
     "TNLPJK": {
-- 
2.43.0


From bcbccd99c8ca5830836bcbcf0b7edfe3754bd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:59 +0000
Subject: [PATCH 24/25] fix: autoroll picks the latest rollover not after now
 across leapseconds

---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index c7f2d5d..1592885 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -861,6 +861,7 @@ def wnotow2utc(
     tow %= 604800000
     current = datetime.now(timezone.utc)
     i = 0
+    last = None
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
@@ -870,7 +871,9 @@ def wnotow2utc(
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-        if utc + timedelta(days=rollover * 7) > current:
+        if utc > current:  # later than current date, so revert to previous rollover
+            utc = last or utc
             break
+        last = utc
         i += 1
     return utc
-- 
2.43.0


From 038186b73e2624637495a181667091260d7623fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 25/25] fix: ISO6709 components are plain decimals

---
 src/pynmeagps/nmeahelpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1592885..b939b7c 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,6 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
+from decimal import Decimal
 from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
@@ -665,8 +666,11 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
 
     """
 
-    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
+    # plain decimal notation, never scientific e.g. "1e-05"
+    lati, loni, alti = [
+        f"{'-' if c < 0 else '+'}{Decimal(str(abs(c))):f}" for c in (lat, lon, alt)
+    ]
+    return f"{lati}{loni}{alti}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0

