From 4a7fbe944efe046bd8c7d2503764f81d6440639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 01/45] fix: calculate checksum over encoded bytes rather than
 unicode code points

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..db83821 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -133,8 +133,8 @@ def calc_checksum(content: str) -> str:
     """
 
     cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
+    for sub in content.encode("utf-8", "surrogatepass"):  # XOR of encoded bytes
+        cksum ^= sub
     return f"{cksum:02X}"
 
 
-- 
2.43.0


From 754cd11b69792c0317b85bf48532db2f7427e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 02/45] fix: ddd2dmm must carry minutes rounded up to 60 into
 degrees

---
 src/pynmeagps/nmeahelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index db83821..b15e5ad 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -201,8 +201,9 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
     """
 
     try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting so that minutes can never reach 60
+        degrees = round(abs(degrees) * 60, 7 if hpmode else 5)
+        degrees, minutes = divmod(degrees, 60)
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
-- 
2.43.0


From 94b92967f2f5bf7180b64826999c18433b28f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 03/45] fix: deg2dms and deg2dmm must carry seconds or minutes
 rounded up to 60

---
 src/pynmeagps/nmeahelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index b15e5ad..2dcfbd9 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -234,8 +234,8 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
 
     try:
         negative = degrees < 0
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting so that minutes can never reach 60
+        degrees, minutes = divmod(round(abs(degrees) * 60, 7), 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
@@ -259,8 +259,8 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
 
     try:
         negative = degrees < 0
-        degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
+        # round before splitting so that seconds can never reach 60
+        minutes, seconds = divmod(round(abs(degrees) * 3600, 5), 60)
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
-- 
2.43.0


From 7318f6933fe9f6a5cffd48be5e37c267834d3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 04/45] fix: haversine fails with math domain error for
 antipodal points

---
 src/pynmeagps/nmeahelpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 2dcfbd9..1fa4e8f 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -487,9 +487,9 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    # rounding error can take cosine outside domain of acos
+    dist = radius * acos(max(-1.0, min(1.0, cosd)))
 
     return dist
 
-- 
2.43.0


From 8e25f6d610a456e82163c556ae01ac5fc921ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 05/45] fix: planar distance is wrong across the antimeridian

---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1fa4e8f..a4e8c8e 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -692,7 +692,10 @@ def planar(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dlambda = (lambda2 - lambda1) * cos(phi1)
+    dlambda = lambda2 - lambda1
+    if abs(dlambda) > pi:  # take the shorter way round (antimeridian)
+        dlambda -= 2 * pi * round(dlambda / (2 * pi))
+    dlambda *= cos(phi1)
     dphi = phi2 - phi1
     dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
 
-- 
2.43.0


From e31296c721b87cdc781b0f3e74572bd0b06e8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 06/45] fix: utc2wnotow tow exceeds week in leapseconds before
 week rollover

---
 src/pynmeagps/nmeahelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index a4e8c8e..b4969a0 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -777,10 +777,10 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    # week is that of the GNSS time scale, i.e. after leapsecond adjustment
+    wno, rem = divmod(utc - ep0 + timedelta(seconds=ls), timedelta(days=7))
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
+    tow = rem // timedelta(milliseconds=1)
     return wnom if modwno else wno, tow, ls
 
 
-- 
2.43.0


From f6ae15539de246beeaf6c7a93f74dbc8f94337ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 07/45] fix: wnotow2utc applies new leapsecond before it takes
 effect

---
 src/pynmeagps/nmeahelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index b4969a0..fe27be4 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -848,6 +848,8 @@ def wnotow2utc(
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
             lps = leapsecond(utc, gnss) if ls is None else ls
+            if ls is None:  # table is keyed on UTC rather than GNSS time
+                lps = leapsecond(utc - timedelta(seconds=lps), gnss)
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From ef387a0dc300a44e367f03ca7646782f3bb497e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 08/45] fix: llh2iso6709 doubles the sign of negative altitudes

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index fe27be4..f2e5083 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -647,7 +647,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From e0f8d1694b0a97d2e93e70cfb3f8e614e020371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 09/45] fix: wnotow2utc autoroll misses current epoch by
 leapsecond difference

---
 src/pynmeagps/nmeahelpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index f2e5083..e8c66a8 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -843,6 +843,7 @@ def wnotow2utc(
     wno = wno % rollover if modwno else wno
     tow %= 604800000
     current = datetime.now(timezone.utc)
+    res = None
     i = 0
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
@@ -851,9 +852,9 @@ def wnotow2utc(
             if ls is None:  # table is keyed on UTC rather than GNSS time
                 lps = leapsecond(utc - timedelta(seconds=lps), gnss)
             utc -= timedelta(seconds=lps)
-        if not autoroll:
-            break
-        if utc + timedelta(days=rollover * 7) > current:
+        if res is None or utc <= current:
+            res = utc
+        if not autoroll or utc > current:
             break
         i += 1
-    return utc
+    return res
-- 
2.43.0


From 844502c66398196d050af003eeabc3d159811f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 10/45] fix: bound repeating group count carried in message by
 items present

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..3633fe6 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -201,6 +201,8 @@ class NMEAMessage:
                 rng = groupsize(**kwargs)
         else:  # number of repeats is defined in named attribute
             rng = getattr(self, numr)
+            if self._streaming:  # can't exceed number of items actually present
+                rng = min(rng, len(self._payload) - pindex)
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
-- 
2.43.0


From 0f4d5942e4a953658d42adab11a4ddcc0ec704c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 11/45] fix: IndexError escapes parsing of proprietary messages
 with blank or absent msgId

---
 src/pynmeagps/nmeamessage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3633fe6..7c68abc 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -308,10 +308,11 @@ class NMEAMessage:
         try:
             if key in nmt.NMEA_PREFIX_PROP:  # proprietary, first element is msgId
                 if self._streaming:
-                    if key == "ASHR" and self._payload[0][1].isdigit():
+                    msgid = "".join(self._payload[0:1])  # may be absent or blank
+                    if key == "ASHR" and msgid[1:2].isdigit():
                         pass  # exception for PASHR pitch and roll sentence without msgId
                     else:
-                        key += self._payload[0]
+                        key += msgid
                 elif "msgId" in kwargs:
                     key += kwargs["msgId"]
                 else:
@@ -511,7 +512,7 @@ class NMEAMessage:
 
         py = self._streaming
         if mode == nmt.GET:
-            if py and kwargs["payload"][0].isnumeric():
+            if py and "".join(self._payload[0:1]).isnumeric():
                 key += "_ALT"
         return key
 
@@ -531,7 +532,7 @@ class NMEAMessage:
         mt = "msgtype" in kwargs
         msgtype = ""
         if py:
-            msgtype = self._payload[0]
+            msgtype = "".join(self._payload[0:1])
         elif not py and mt:
             msgtype = kwargs["msgtype"]
         key += f"_{msgtype}"
-- 
2.43.0


From fcf97706e6e9bfeff483857fb818d9a42b030db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 12/45] fix: parsing PSSNSNC alters payload and so serialized
 output

---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 7c68abc..20300b0 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -241,12 +241,10 @@ class NMEAMessage:
         try:
             # all attribute values have been provided
             if self._streaming:
+                val = self._payload[pindex]
                 # remove group delimiters in proprietary PSSNSNC message
                 if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 9141d6bc997e4d6d1b0e552b3dcac0147ea37faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 13/45] fix: message payload can be altered and attributes
 deleted after instantiation

---
 src/pynmeagps/nmeamessage.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 20300b0..00672f4 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -122,7 +122,7 @@ class NMEAMessage:
         key = ""
 
         try:
-            self._payload = kwargs.get("payload", [])
+            self._payload = list(kwargs.get("payload", []))
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
@@ -622,6 +622,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
@@ -697,7 +712,7 @@ class NMEAMessage:
         :rtype: list
         """
 
-        return self._payload
+        return list(self._payload)
 
     @property
     def checksum(self) -> str | NoneType:
-- 
2.43.0


From 2c482af1cdd12f07ef66d6858c8fe05f6eb1767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 14/45] fix: messages generated without payload definition have
 no checksum

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 00672f4..ef419a8 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -128,7 +128,7 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From d793d00e8129f6027e5a5260642ed3692ff688ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 15/45] fix: POLL definitions for proprietary messages are
 never found

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index ef419a8..8f18023 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -365,6 +365,8 @@ class NMEAMessage:
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
+            if key in nmp.NMEA_PAYLOADS_POLL:
+                return nmp.NMEA_PAYLOADS_POLL[key]
             return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
-- 
2.43.0


From 9fc1e2fad2e060e5c6fc5c72200c306e93910d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 16/45] fix: messages with ddmmyyyy date attributes cannot be
 parsed

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 8f18023..808ea57 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -748,7 +748,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From b31881e7796b637ddeade1031578ca98506759d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 17/45] fix: repr does not escape talker and msgID

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 808ea57..3bde289 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -604,7 +604,7 @@ class NMEAMessage:
         """
 
         return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"NMEAMessage({self._talker!r},{self._msgID!r}, "
             f"{self._mode}, payload={self._payload})"
         )
 
-- 
2.43.0


From 1a3f86d86b34575ba431096031c36c65c1244e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 18/45] fix: groupsize fails on attribute names containing
 underscore

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index e8c66a8..6ea05b9 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -458,8 +458,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = a.rsplit("_", 1)  # attribute name may itself contain underscore
+        if len(ai) > 1 and ai[1].isdecimal():
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From 824743d6cce3776e94bae865b9753c1707956ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 19/45] fix: mixed case TNLGGKx definition is never found

---
 src/pynmeagps/nmeamessage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3bde289..03fd432 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -318,7 +318,8 @@ class NMEAMessage:
                         f"P{key} message definitions must "
                         "include payload or msgId keyword arguments."
                     )
-            key = key.upper()
+            if key not in nmt.NMEA_MSGIDS_PROP:  # e.g. TNLGGKx is mixed case
+                key = key.upper()
 
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
-- 
2.43.0


From 6de259f3784ac61c790b6db4f65f83bcbc6ae525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 20/45] fix: user-defined definitions with lower case msgID are
 never found

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 03fd432..f8c2a90 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -324,7 +324,7 @@ class NMEAMessage:
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
+                dic = self._userdefined[self._msgID]
             else:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
-- 
2.43.0


From aa6490a77bd58d78a28fdf5040447491758644dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 21/45] fix: decimal attributes are serialized with exponent if
 very small or large

---
 src/pynmeagps/nmeamessage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index f8c2a90..f7f6ff6 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -12,6 +12,7 @@ Created on 04 Mar 2021
 
 import struct
 from datetime import datetime, timezone
+from decimal import Decimal
 from logging import getLogger
 from types import NoneType
 from typing import Any, Literal
@@ -783,6 +784,8 @@ class NMEAMessage:
             vals = str(val)
         elif att == nmt.DE:
             vals = str(val)
+            if isinstance(val, float) and "e" in vals:  # no exponents in NMEA
+                vals = f"{Decimal(vals):f}"
         elif att == nmt.IN:
             vals = str(val)
         elif att in (nmt.LA, nmt.LN):
-- 
2.43.0


From a98100da2520db6b9db48720cd4bc9d63b1ce08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 22/45] fix: sign of lat/lon attributes not named lat/lon is
 lost when parsing or generating

---
 src/pynmeagps/nmeamessage.py | 38 +++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index f7f6ff6..a1dc6ad 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -106,6 +106,8 @@ class NMEAMessage:
         self._checksum = checksum
         # flag to show message is being streamed rather than generated
         self._streaming = "payload" in kwargs
+        # names of lat/lon attributes governed by NS (LAD) and EW (LND) attributes
+        self._poskeys = {nmt.LAD: "lat", nmt.LND: "lon"}
         self._do_attributes(**kwargs)
         self._immutable = True  # once initialised, object is immutable
 
@@ -250,18 +252,14 @@ class NMEAMessage:
             # some attribute values have been provided,
             # the rest will be set to a nominal value
             else:
-                if att == nmt.LND and hasattr(self, "lon"):
-                    if isinstance(self.lon, (int, float)):
-                        val = "W" if self.lon < 0 else "E"
-                    else:  # pragma: no cover
-                        val = "E"
-                elif att == nmt.LAD and hasattr(self, "lat"):
-                    if isinstance(self.lat, (int, float)):
-                        val = "S" if self.lat < 0 else "N"
-                    else:  # pragma: no cover
-                        val = "N"
-                else:
-                    val = kwargs.get(keyr, self.nomval(att, self.msgmode))
+                val = kwargs.get(keyr, self.nomval(att, self.msgmode))
+                # derive NS and EW values from sign of lat/lon
+                pos = getattr(self, self._poskeys.get(att, ""), None)
+                if isinstance(pos, (int, float)):
+                    if att == nmt.LND:
+                        val = "W" if pos < 0 else "E"
+                    else:
+                        val = "S" if pos < 0 else "N"
                 vals = self.val2str(val, att, self._hpnmeamode)
                 self._payload.append(vals)
 
@@ -273,12 +271,16 @@ class NMEAMessage:
         setattr(self, keyr, val)  # add attribute to NMEAMessage object
         if self._streaming:
             # override sign of lat/lon according to NS and EW values
-            if att == nmt.LND and hasattr(self, "lon"):
-                if isinstance(self.lon, (int, float)):
-                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
-            elif att == nmt.LAD and hasattr(self, "lat"):
-                if isinstance(self.lat, (int, float)):
-                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
+            poskey = self._poskeys.get(att, "")
+            pos = getattr(self, poskey, None)
+            if isinstance(pos, (int, float)):
+                neg = val == ("W" if att == nmt.LND else "S")
+                setattr(self, poskey, -abs(pos) if neg else abs(pos))
+        # remember which lat/lon attribute any following NS or EW refers to
+        if att == nmt.LA:
+            self._poskeys[nmt.LAD] = keyr
+        elif att == nmt.LN:
+            self._poskeys[nmt.LND] = keyr
         pindex += 1  # move on to next attribute in payload definition
 
         return pindex
-- 
2.43.0


From 450016c6ee30def7adeec24aebbefb750c3744a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 23/45] fix: message immediately following stray dollar sign is
 lost

---
 src/pynmeagps/nmeareader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..ef0c1c8 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -95,6 +95,7 @@ class NMEAReader:
         self._validate = validate
         self._mode = msgmode
         self._userdefined = userdefined
+        self._byte1 = b""
         self._logger = getLogger(__name__)
 
     def __iter__(self):
@@ -133,7 +134,9 @@ class NMEAReader:
 
         while parsing:  # loop until end of valid NMEA message or EOF
             try:
-                byte1 = self._read_bytes(1)  # read 1st byte
+                # read 1st byte (unless already read as 2nd byte of non-NMEA header)
+                byte1 = self._byte1 or self._read_bytes(1)
+                self._byte1 = b""
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
@@ -149,6 +152,8 @@ class NMEAReader:
                     )
                     parsing = False
                 else:  # it's not a NMEA message (UBX or something else)
+                    if byte2 == byte1:  # could be start of next NMEA message
+                        self._byte1 = byte2
                     if self._nmea_only:  # raise error and quit
                         raise nme.NMEAParseError(f"Unknown protocol header {bytehdr}.")
 
-- 
2.43.0


From a08a979947dc34715cb702f2f4eeec33b96b2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 24/45] fix: socket readline runs past LF terminator

---
 src/pynmeagps/socketwrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..f288ca3 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -98,8 +98,8 @@ class SocketWrapper:
 
     def readline(self) -> bytes:
         """
-        Read bytes from buffer until CRLF reached.
-        NB: always check that return data terminator is CRLF.
+        Read bytes from buffer until LF (i.e. LF or CRLF) reached.
+        NB: always check that return data terminator is LF.
 
         :returns: bytes
         :rtype: bytes
@@ -110,7 +110,7 @@ class SocketWrapper:
             data = self.read(1)
             if len(data) == 1:
                 line += data
-                if line[-2:] == b"\r\n":
+                if data == b"\n":
                     break
             else:
                 break
-- 
2.43.0


From 32c16177e7f7ef21d4c4be190b35c26ad85289bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 25/45] fix: chunks lost if segment ends before chunk
 terminator

---
 src/pynmeagps/socketwrapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index f288ca3..d633cf2 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -161,6 +161,9 @@ class SocketWrapper:
                 # premature end of length bytes
                 partial = length_bytes
                 break
+            if length_bytes == b"\r\n":
+                # terminator of chunk at end of previous segment
+                continue
             try:
                 chunk_length = int(length_bytes.strip(), 16)
             except ValueError:
@@ -184,7 +187,11 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
+            terminator = instream.readline()
+            if terminator[-1:] != b"\n":
+                # premature end of terminator bytes
+                partial = terminator
+                break
             if chunk_length == 0:
                 # final chunk
                 break
-- 
2.43.0


From 5d1c00feaed31f549a58fdc0e12c6c13f82f1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 26/45] fix: concurrent reads from shared reader corrupt and
 lose messages

---
 src/pynmeagps/nmeareader.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index ef0c1c8..7f19aeb 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -27,6 +27,7 @@ Created on 4 Mar 2021
 
 from logging import getLogger
 from socket import socket
+from threading import RLock
 from types import FunctionType, NoneType
 from typing import Literal
 
@@ -96,6 +97,7 @@ class NMEAReader:
         self._mode = msgmode
         self._userdefined = userdefined
         self._byte1 = b""
+        self._lock = RLock()
         self._logger = getLogger(__name__)
 
     def __iter__(self):
@@ -122,12 +124,26 @@ class NMEAReader:
         """
         Read the binary data from the stream buffer.
 
+        Each message takes several stream operations to read, so concurrent
+        reads from different threads must be serialized.
+
         :return: tuple of (raw_data as bytes, parsed_data as NMEAMessage)
         :rtype: tuple[bytes | NoneType, NMEAMessage | NoneType]
         :raises: NMEAStreamError (if nmeaonly=True and stream includes non-NMEA data)
 
         """
 
+        with self._lock:
+            return self._read_message()
+
+    def _read_message(self) -> tuple[bytes | NoneType, NMEAMessage | NoneType]:
+        """
+        Read next NMEA message from the stream buffer.
+
+        :return: tuple of (raw_data as bytes, parsed_data as NMEAMessage)
+        :rtype: tuple[bytes | NoneType, NMEAMessage | NoneType]
+        """
+
         parsing = True
         raw_data = None
         parsed_data = None
-- 
2.43.0


From 9b795583fb36d8595b714e667ebaf16b98c1730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 27/45] fix: ERROR response to QTMCFGMSGRATE, QTMCFGPPS and
 QTMCFGUART decoded as data

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index a1dc6ad..fa17dae 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -365,7 +365,7 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
+        if key[0:3] == "QTM":
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
-- 
2.43.0


From 75599bed6c21941a3443e9e67266018eee252658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 28/45] fix: absent or blank repeating group count raises
 NMEATypeError

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index fa17dae..4b26f34 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -203,7 +203,7 @@ class NMEAMessage:
             else:
                 rng = groupsize(**kwargs)
         else:  # number of repeats is defined in named attribute
-            rng = getattr(self, numr)
+            rng = getattr(self, numr, 0) or 0  # may be absent or blank
             if self._streaming:  # can't exceed number of items actually present
                 rng = min(rng, len(self._payload) - pindex)
         # recursively process each group attribute,
-- 
2.43.0


From b00a63b9903bdeb28dabedcf72af66622e52404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 29/45] fix: unrecognised mixed case msgIDs decoded as upper
 case message

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 4b26f34..fa5f2cc 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -328,7 +328,7 @@ class NMEAMessage:
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
                 dic = self._userdefined[self._msgID]
-            else:  # standard
+            elif self._defsource == nmt.DEF_STND:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
                 elif self._mode == nmt.SET:  # pragma: no cover
-- 
2.43.0


From 933820314240254b02f2dbf1a9d6f3ce48dbace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 30/45] fix: OverflowError escapes if chunk length is larger
 than addressable

---
 src/pynmeagps/socketwrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index d633cf2..3fddae4 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -170,7 +170,7 @@ class SocketWrapper:
                 # residual bytes at beginning of stream
                 break
             if chunk_length != 0:
-                chunk = instream.read(chunk_length)
+                chunk = instream.read(min(chunk_length, len(segment)))
                 if len(chunk) != chunk_length:
                     # premature end of chunk bytes
                     partial = length_bytes + chunk
-- 
2.43.0


From 5ff07d09539445f97875862ce01783ec56c37161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 31/45] fix: hex2str pads with spaces rather than zeros if
 padding > 9

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 6ea05b9..e365ea9 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -505,7 +505,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From 7166d19c94c0277a697600463c559196862bcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 32/45] fix: deg2dms and deg2dmm give exponents for very small
 seconds or minutes

---
 src/pynmeagps/nmeahelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index e365ea9..d6b17fb 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,6 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
+from decimal import Decimal
 from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
@@ -240,7 +241,8 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+        minutes = Decimal(str(round(minutes, 7)))  # no exponent in string
+        return f"{int(degrees)}\u00b0{minutes:f}\u2032{sfx}"
     except (TypeError, ValueError):
         return ""
 
@@ -266,7 +268,8 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+        seconds = Decimal(str(round(seconds, 5)))  # no exponent in string
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{seconds:f}\u2033{sfx}"
     except (TypeError, ValueError):
         return ""
 
-- 
2.43.0


From 6bda8a6eeb286b2b549d115c72aba2eae2ee4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 33/45] fix: llh2iso6709 gives exponents for very small values

---
 src/pynmeagps/nmeahelpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index d6b17fb..0c31913 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -650,7 +650,9 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
+    # no exponents in string
+    lat, lon, alt = [Decimal(str(abs(c))) for c in (lat, lon, alt)]
+    return f"{lati}{lat:f}{loni}{lon:f}{alti}{alt:f}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From 132bb5db0c08ba47562dc8e560c48bc40f8e5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 34/45] fix: attributes or keywords named key, mode or att
 collide with internal parameters

---
 src/pynmeagps/nmeamessage.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index fa5f2cc..772c3cc 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -154,7 +154,7 @@ class NMEAMessage:
             ) from err
 
     def _set_attribute(
-        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
+        self, pindex: int, pdict: dict, key: str, gindex: list, /, **kwargs
     ) -> tuple:
         """
         Recursive routine to set individual or grouped payload attributes.
@@ -177,7 +177,7 @@ class NMEAMessage:
         return (pindex, gindex)
 
     def _set_attribute_group(
-        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
+        self, att: tuple[int, dict], pindex: int, gindex: list, /, **kwargs
     ) -> tuple:
         """
         Process (nested) group of attributes.
@@ -220,7 +220,7 @@ class NMEAMessage:
         return (pindex, gindex)
 
     def _set_attribute_single(
-        self, att: str, pindex: int, key: str, gindex: list, **kwargs
+        self, att: str, pindex: int, key: str, gindex: list, /, **kwargs
     ) -> int:
         """
         Set individual attribute value.
@@ -342,7 +342,7 @@ class NMEAMessage:
 
         return dic
 
-    def _get_dict_prop(self, key: str, **kwargs) -> dict:
+    def _get_dict_prop(self, key: str, /, **kwargs) -> dict:
         """
         Get payload dictionary for proprietary message types.
 
@@ -376,7 +376,7 @@ class NMEAMessage:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
         return nmgp.NMEA_PAYLOADS_GET_PROP[key]
 
-    def _get_dict_qtmcfguart(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfguart(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGUART
         command and query variants.
@@ -404,7 +404,7 @@ class NMEAMessage:
                 key += "_CURR"
         return key
 
-    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGMSGRATE
         command and query variants.
@@ -435,7 +435,7 @@ class NMEAMessage:
                 key += "_INTF"
         return key
 
-    def _get_dict_qtmcfgpps(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfgpps(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGPPS
         command and query variants.
@@ -453,7 +453,7 @@ class NMEAMessage:
                 key += "_DIS"
         return key
 
-    def _get_dict_qtmcfgsat(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfgsat(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGSAT
         command and query variants.
@@ -477,7 +477,7 @@ class NMEAMessage:
                 key = self._get_dict_qtmacknak(key, mode)
         return key
 
-    def _get_dict_qtmcfggeofence(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmcfggeofence(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMCFGGEOFENCE
         command and query variants.
@@ -503,7 +503,7 @@ class NMEAMessage:
                 key = self._get_dict_qtmacknak(key, mode)
         return key
 
-    def _get_dict_qtmsn(self, key: str, mode: int, **kwargs) -> str:
+    def _get_dict_qtmsn(self, key: str, mode: int, /, **kwargs) -> str:
         """
         Get payload dictionary for proprietary Quectel QTMSN.
         (bug in LG580P firmware - seems to transpose status field?)
@@ -521,7 +521,7 @@ class NMEAMessage:
         return key
 
     def _get_dict_stmdrsenmsg(
-        self, key: str, mode: int, **kwargs
+        self, key: str, mode: int, /, **kwargs
     ) -> str:  # pylint: disable=unused-argument
         """
         Get payload dictionary for proprietary Quectel PSTMDRSENMSG variants.
-- 
2.43.0


From 763d50b64f7ccf9e7fc0c494214e8ccd490ebc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:30 +0000
Subject: [PATCH 35/45] fix: building from infinite or signalling NaN Decimals
 raises InvalidOperation

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 772c3cc..ea9edff 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -143,8 +143,8 @@ class NMEAMessage:
                 )
 
         except (
+            ArithmeticError,
             AttributeError,
-            OverflowError,
             struct.error,
             TypeError,
             ValueError,
-- 
2.43.0


From 96126a190b6ea0861ca26d401561b6dd402eeff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 36/45] fix: hemisphere of latitudes and longitudes given as
 Decimal is always N or E

---
 src/pynmeagps/nmeamessage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index ea9edff..64435ff 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -14,6 +14,7 @@ import struct
 from datetime import datetime, timezone
 from decimal import Decimal
 from logging import getLogger
+from numbers import Number
 from types import NoneType
 from typing import Any, Literal
 
@@ -255,7 +256,7 @@ class NMEAMessage:
                 val = kwargs.get(keyr, self.nomval(att, self.msgmode))
                 # derive NS and EW values from sign of lat/lon
                 pos = getattr(self, self._poskeys.get(att, ""), None)
-                if isinstance(pos, (int, float)):
+                if isinstance(pos, Number):
                     if att == nmt.LND:
                         val = "W" if pos < 0 else "E"
                     else:
-- 
2.43.0


From e3b1fe0e3538ff24f68428f6067f6887057b4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 37/45] fix: decimal fields given as Decimal are written with
 exponents

---
 src/pynmeagps/nmeamessage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 64435ff..f8293c4 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -787,7 +787,8 @@ class NMEAMessage:
             vals = str(val)
         elif att == nmt.DE:
             vals = str(val)
-            if isinstance(val, float) and "e" in vals:  # no exponents in NMEA
+            # no exponents in NMEA
+            if isinstance(val, (float, Decimal)) and "E" in vals.upper():
                 vals = f"{Decimal(vals):f}"
         elif att == nmt.IN:
             vals = str(val)
-- 
2.43.0


From 689f087f5fcdb3ad9dbb7c7c53b51a860998faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 38/45] fix: raise the documented errors for undecodable bytes
 when bytes warnings are errors

---
 src/pynmeagps/nmeahelpers.py | 2 ++
 src/pynmeagps/nmeareader.py  | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 0c31913..9de2ee4 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -446,6 +446,8 @@ def get_parts(message: object) -> tuple:
         talker, msgid = hdr[:s], hdr[s:]
         return content, talker, msgid, payload, cksum
     except Exception as err:
+        if isinstance(message, (bytes, bytearray)):
+            message = repr(message)
         raise nme.NMEAMessageError(f"Badly formed message {message}") from err
 
 
diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 7f19aeb..315ddf0 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -171,7 +171,9 @@ class NMEAReader:
                     if byte2 == byte1:  # could be start of next NMEA message
                         self._byte1 = byte2
                     if self._nmea_only:  # raise error and quit
-                        raise nme.NMEAParseError(f"Unknown protocol header {bytehdr}.")
+                        raise nme.NMEAParseError(
+                            f"Unknown protocol header {bytehdr!r}."
+                        )
 
             except EOFError:
                 return (None, None)
-- 
2.43.0


From 719382933ac9fc5a1ddf5c25b373bd4e79547278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:47 +0000
Subject: [PATCH 39/45] fix: dates and times with digits missing are decoded as
 other dates and times

---
 src/pynmeagps/nmeahelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 9de2ee4..a68c0e4 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -181,6 +181,8 @@ def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date
         else:
             dform = "%d%m%y"
         utc = datetime.strptime(dates, dform)
+        if len(dates) != (8 if form == "DTL" else 6) or not dates.isdigit():
+            raise ValueError()  # strptime tolerates missing leading zeros
         return utc.date()
     except (TypeError, ValueError):
         return ""
@@ -737,6 +739,8 @@ def time2utc(times: str) -> datetime | str:
         if len(times) == 6:  # decimal seconds is omitted
             times = times + ".00"
         utc = datetime.strptime(times, "%H%M%S.%f")
+        if times[6:7] != ".":
+            raise ValueError()  # strptime tolerates missing leading zeros
         return utc.time()
     except (TypeError, ValueError):
         return ""
-- 
2.43.0


From e0ddfb67ed88eebd5c99465674b093e748006ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:48 +0000
Subject: [PATCH 40/45] fix: positions with exponents, inner signs or blanks
 are decoded as other positions

---
 src/pynmeagps/nmeahelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index a68c0e4..13199f5 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -288,7 +288,8 @@ def dmm2ddd(pos: str) -> float | str:
 
     try:
         dp = pos.find(".")
-        if dp < 4:
+        # degrees and minutes can only be digits (no exponent or inner sign)
+        if dp < 4 or not pos.strip().lstrip("+-").replace(".", "", 1).isdigit():
             raise ValueError()
         posdeg = abs(float(pos[0 : dp - 2]))
         posmin = float(pos[dp - 2 :])
-- 
2.43.0


From 2d407bf2bd287146107c72384bf335499cd6bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:05 +0000
Subject: [PATCH 41/45] fix: keep the cause of an error re-raised by a reader

quitonerror=ERR_RAISE made each error its own cause, so that what had
really gone wrong (e.g. the ValueError of a field that cannot be
converted) was lost.
---
 src/pynmeagps/nmeareader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 315ddf0..17bc04f 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -237,7 +237,7 @@ class NMEAReader:
         """
 
         if self._quitonerror == ERR_RAISE:
-            raise err from err
+            raise err
         if self._quitonerror == ERR_LOG:
             # pass to error handler if there is one
             if self._errorhandler is None:
-- 
2.43.0


From 1bf6ee686673022cdbc2d2705a2e832da1f5ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:01 +0000
Subject: [PATCH 42/45] fix: reading from a socket in time proportional to its
 bytes

Each byte read copied the whole receive buffer, and each byte of a line
the line so far: a line of 800 kB or a buffer of 1 MB took many seconds.
---
 src/pynmeagps/socketwrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 3fddae4..ac9af3c 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -92,9 +92,9 @@ class SocketWrapper:
         while len(self._buffer) < num:
             if not self._recv():
                 return b""
-        data = self._buffer[:num]
-        self._buffer = self._buffer[num:]
-        return bytes(data)
+        data = bytes(self._buffer[:num])
+        del self._buffer[:num]
+        return data
 
     def readline(self) -> bytes:
         """
@@ -105,7 +105,7 @@ class SocketWrapper:
         :rtype: bytes
         """
 
-        line = b""
+        line = bytearray()
         while True:
             data = self.read(1)
             if len(data) == 1:
@@ -115,7 +115,7 @@ class SocketWrapper:
             else:
                 break
 
-        return line
+        return bytes(line)
 
     def write(self, data: bytes, **kwargs):
         """
-- 
2.43.0


From 246527ac42aa8a2106a89c85175640c99fb8a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:30 +0000
Subject: [PATCH 43/45] fix: stream blocked by residual bytes not ending in
 CRLF before first chunk

---
 src/pynmeagps/socketwrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index ac9af3c..055d964 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -27,6 +27,8 @@ from pynmeagps.nmeatypes_core import (
     ENCODE_NONE,
 )
 
+HEXDIGITS = b"0123456789abcdefABCDEF\r"
+
 
 class SocketWrapper:
     """
@@ -157,7 +159,7 @@ class SocketWrapper:
 
         while True:
             length_bytes = instream.readline()
-            if length_bytes[-2:] != b"\r\n":
+            if length_bytes[-1:] != b"\n" and not length_bytes.strip(HEXDIGITS):
                 # premature end of length bytes
                 partial = length_bytes
                 break
@@ -166,6 +168,8 @@ class SocketWrapper:
                 continue
             try:
                 chunk_length = int(length_bytes.strip(), 16)
+                if chunk_length < 0:
+                    raise ValueError()
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From 4bab0b501288715be95569290b7960e97fb1a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:31 +0000
Subject: [PATCH 44/45] fix: dechunking in time proportional to bytes received

---
 src/pynmeagps/socketwrapper.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 055d964..91f2552 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -55,7 +55,8 @@ class SocketWrapper:
         self._bufsize = bufsize
         self._encoding = encoding
         self._buffer = bytearray()
-        self._partial = b""  # partial chunk
+        self._partial = bytearray()  # partial chunk
+        self._needed = 0  # length of partial chunk when complete
         self._recv()  # populate initial buffer
 
     def _recv(self) -> bool:
@@ -71,8 +72,17 @@ class SocketWrapper:
             if len(data) == 0:
                 return False
             if self._encoding & ENCODE_CHUNKED:
-                data = self._partial + data
-                chunks, self._partial = self.dechunk(data)
+                self._partial += data
+                # nothing to do until rest of chunk, or of its length, has arrived
+                if self._needed:
+                    if len(self._partial) < self._needed:
+                        return True
+                elif not data.strip(HEXDIGITS):
+                    return True
+                chunks, partial = self.dechunk(bytes(self._partial))
+                size, crlf, _ = partial.partition(b"\n")
+                self._needed = len(size) + 1 + int(size, 16) if crlf else 0
+                self._partial = bytearray(partial)
                 self._buffer += chunks
             else:
                 self._buffer += data
@@ -154,7 +164,7 @@ class SocketWrapper:
         # pylint: disable=logging-fstring-interpolation
 
         instream = BytesIO(segment)
-        chunks = b""
+        chunks = bytearray()
         partial = b""
 
         while True:
@@ -200,7 +210,7 @@ class SocketWrapper:
                 # final chunk
                 break
 
-        return chunks, partial
+        return bytes(chunks), partial
 
     @property
     def buffer(self) -> bytearray:
-- 
2.43.0


From 3733adbaac29e3da2c3df0f3956ae7edafc484bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 45/45] fix: years before 1000 written with fewer than four
 digits in ddmmyyyy dates

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 13199f5..9adb36b 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -154,7 +154,7 @@ def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
         if form == DM:
             dform = "%m%d%y"
         elif form == DTL:
-            dform = "%d%m%Y"
+            dform = f"%d%m{dat.year:04d}"  # %Y has no leading zeros
         else:
             dform = "%d%m%y"
         return dat.strftime(dform)
-- 
2.43.0

