From 62c9f31135d84e5cacaff79f4d6647cc5858861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 001/169] fix: count leap days by the Gregorian rule when
 computing days since 1970

---
 src/pycalendar/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..3a0e721 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -402,14 +402,13 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
+        # Leap days up to the end of the previous year, less the 477 there were by the end of 1969
+        # (NB this has to use the same rule as isLeapYear)
+        year = 1970 + year_offset - 1
+        if year <= 1752:
+            result = year / 4 - 490
         else:
-            result = 0
+            result = year / 4 - year / 100 + year / 400 - 477
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From ae07468fefa3c65c1e441746ea456afa96a90634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 002/169] fix: setWeekNo treats Sunday as the last day of an
 ISO week

---
 src/pycalendar/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..2031264 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -377,9 +377,14 @@ class DateTime(ValueMixin):
             return
 
         # What day does the current year start on, and diff that with the current day
+        # (using the ISO day of week where Sunday is the last day of the week)
         temp = DateTime(year=self.mYear, month=1, day=1)
         first_day = temp.getDayOfWeek()
+        if first_day == DateTime.SUNDAY:
+            first_day = 7
         current_day = self.getDayOfWeek()
+        if current_day == DateTime.SUNDAY:
+            current_day = 7
 
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
-- 
2.43.0


From 1a015950f4a119fba6a7feed0ae6b8ab82bdbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 003/169] fix: expand VTIMEZONE observances to the end of the
 year asked for

The expansion cache, shared by the offset and the description lookups, stopped
at 1st January of the year being asked about (or at the exact end time of the
first request), so names of transitions in that year were missed and answers
depended on earlier requests.
---
 src/pycalendar/icalendar/vtimezoneelement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..b56fdde 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -124,7 +124,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(below.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -184,7 +184,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(end.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -193,7 +193,7 @@ class VTimezoneElement(Component):
                 self.mCachedExpandBelow = self.mStart.duplicate()
             if temp > self.mCachedExpandBelow:
                 self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, end)
+                period = Period(self.mStart, temp)
                 self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                 self.mCachedExpandBelow = temp
 
-- 
2.43.0


From a36f3975d89074e61c9ecd063f2a43302f1c6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 004/169] fix: key the timezone offset cache by seconds too

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..7274e46 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From 075d787c29257c72baf27f266064e0d89213a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 005/169] fix: only read timezones from inside the timezone
 database directory

A sibling directory whose name starts with the database directory's name
passed the prefix test.
---
 src/pycalendar/timezonedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..7471023 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -116,7 +116,7 @@ class TimezoneDatabase(object):
 
         tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
         tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        if tzpath.startswith(os.path.join(self.dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From dd019987a0a2883a15f02003280f73d3a4a6e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 006/169] fix: do not split multi-valued text at escaped commas

---
 src/pycalendar/multivalue.py |  5 +++--
 src/pycalendar/utils.py      | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..4253a95 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from pycalendar.utils import splitUnescaped
 from pycalendar.value import Value
 
 
@@ -56,9 +57,9 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
+        # Tokenize on comma, but not on an escaped one
         if "," in data:
-            tokens = data.split(",")
+            tokens = splitUnescaped(data, ",")
         else:
             tokens = (data,)
         for token in tokens:
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 3a0e721..5d21cb6 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -259,6 +259,21 @@ def decodeParameterValue(value):
         return value
 
 
+def splitUnescaped(data, sep):
+    """
+    Split at each separator that is not escaped. Escapes in the results are left as they are.
+    """
+    results = [""]
+    escaped = False
+    for s in data:
+        if s == sep and not escaped:
+            results.append("")
+        else:
+            results[-1] += s
+        escaped = (s == '\\' and not escaped)
+    return results
+
+
 # vCard text list parsing/generation
 def parseTextList(data, sep=';', always_list=False):
     """
-- 
2.43.0


From 2e03fd01dc4689b4ce1aff61cde86cf358101b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 007/169] fix: an escaped backslash does not escape the
 separator after it in text lists

---
 src/pycalendar/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 5d21cb6..2963448 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -288,7 +288,8 @@ def parseTextList(data, sep=';', always_list=False):
             item = []
         else:
             item.append(s)
-        pre_s = s
+        # An escaped backslash does not escape what follows
+        pre_s = s if pre_s != '\\' else ''
 
     results.append(decodeTextValue("".join(item)))
 
@@ -328,7 +329,8 @@ def parseDoubleNestedList(data, maxsize):
             items.append("")
         else:
             items[-1] += s
-        pre_s = s
+        # An escaped backslash does not escape what follows
+        pre_s = s if pre_s != '\\' else ''
 
     if len(items) > 1:
         results.append(tuple([decodeTextValue(item) for item in items]))
-- 
2.43.0


From c823cdf7b6edb37e73779ca0d9d039bcd570e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 008/169] fix: write DURATION and PERIOD values as XML instead
 of failing

---
 src/pycalendar/valueutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From 61bf645acecc676065c24fed0c4a9a449e041a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 009/169] fix: GEO XML values are text

---
 src/pycalendar/geovalue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..e33a0da 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -65,10 +65,10 @@ class GeoValue(Value):
         value = self.getXMLNode(node, namespace)
 
         latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
+        latitude.text = str(self.mValue[0])
 
         longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude.text = str(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
-- 
2.43.0


From 7c7cd17f12e5a3bf6bf7a175b45dd810bacf76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 010/169] fix: give REQUEST-STATUS values an XML element

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..fdd8e5f 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -105,4 +105,4 @@ class RequestStatusValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_REQUEST_STATUS, RequestStatusValue, None, xmldefinitions_top.value_text)
+Value.registerType(Value.VALUETYPE_REQUEST_STATUS, RequestStatusValue, xmldefinitions.req_status, xmldefinitions_top.value_text)
-- 
2.43.0


From d298285d01210eb9ee4ad66d6ae79de5efb652cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 011/169] fix: UTC offsets with seconds are valid in XML

---
 src/pycalendar/utcoffsetvalue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..337aa50 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -89,9 +89,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
-- 
2.43.0


From c98170ebcf47738e2be825559c38a37e17d1537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 012/169] fix: raise for a backslash in a REQUEST-STATUS code
 only when there is one

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index fdd8e5f..510f88d 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -67,7 +67,7 @@ class RequestStatusValue(Value):
 
         if "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
             code = code.replace("\\", "")
-        elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
+        elif "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
             raise ValueError("RequestStatus: cannot have '\\' in value")
 
         # Decoding required
-- 
2.43.0


From 8857084dcd223036e3853e6bfa63cf56ce139dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 013/169] fix: read JSON property parameters that have several
 values

---
 src/pycalendar/property.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..cf76b2c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -440,7 +440,11 @@ class PropertyBase(object):
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    if isinstance(value, list):
+                        value = [v.encode("utf-8") for v in value]
+                    else:
+                        value = value.encode("utf-8")
+                    attrvalue = Parameter(name=name.encode("utf-8"), value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From 2f40f1b41441a556b5ce1e6decbbec4821c88410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 014/169] fix: quote parameter values that start with a space

---
 src/pycalendar/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..cb5ddbc 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -102,7 +102,7 @@ class Parameter(object):
         str = encodeParameterValue(str)
 
         # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1 or str.startswith(" "):
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From 3955f0aafd8cc2b86b1a482f7af5e23d027a535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 015/169] fix: accept basic format UTC offsets in vCards, as
 they are generated

---
 src/pycalendar/utcoffsetvalue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 337aa50..f3724d0 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -34,11 +34,12 @@ class UTCOffsetValue(Value):
 
     def parse(self, data, variant):
 
-        fullISO = (variant == "vcard")
+        # vCard allows both the basic and the extended format
+        datalen = len(data)
+        fullISO = (variant == "vcard") and datalen in (6, 9,)
 
         # Must be of specific lengths
-        datalen = len(data)
-        if datalen not in ((6, 9,) if fullISO else (5, 7,)):
+        if not fullISO and datalen not in (5, 7,):
             self.mValue = 0
             raise ValueError("UTCOffset: invalid format")
 
-- 
2.43.0


From e1dc8c000061ba2f668837a5b3c4aff6a6b2f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 016/169] fix: compare vCard property groups

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..7177e1e 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From 82ec23918503f38272162d44cd7be442ce7540d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 017/169] fix: skip vCard 2.1 parameters without values when
 told to ignore them

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 7177e1e..a729ba1 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -233,7 +233,7 @@ class Property(PropertyBase):
                         else:  # PARSER_IGNORE and PARSER_FIX
                             parameter_name = None
 
-                        if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
+                        if parameter_name is not None and parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
                             parameter_name = definitions.Parameter_ENCODING
                             parameter_value = definitions.Parameter_Value_ENCODING_B
                             stripValueSpaces = True
-- 
2.43.0


From 35323c7f3d1a955d3610a109993e7d30684fbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 018/169] fix: ADR and N component setters replace the item of
 the tuple

---
 src/pycalendar/vcard/adr.py | 17 ++++++++++-------
 src/pycalendar/vcard/n.py   | 13 ++++++++-----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..41f849f 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -55,43 +55,46 @@ class Adr(ValueMixin):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
+
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..f3eba6e 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -53,31 +53,31 @@ class N(ValueMixin):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
@@ -92,6 +92,9 @@ class N(ValueMixin):
 
         return " ".join(results)
 
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
+
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, N.MAXITEMS)
 
-- 
2.43.0


From 9330930c5b65b44f63f1e0f30f2f6b3d3e29dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 019/169] fix: a date-time with a zero UTC offset is not
 floating

---
 src/pycalendar/datetime.py | 4 ++--
 src/pycalendar/timezone.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 2031264..06ee9c5 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -614,10 +614,10 @@ class DateTime(ValueMixin):
         return self.mTZUTC
 
     def local(self):
-        return (not self.mTZUTC) and self.mTZID
+        return (not self.mTZUTC) and self.mTZID not in (None, "")
 
     def floating(self):
-        return (not self.mTZUTC) and not self.mTZID
+        return (not self.mTZUTC) and self.mTZID in (None, "")
 
     def getTimezone(self):
         return Timezone(utc=self.mTZUTC, tzid=self.mTZID)
diff --git a/src/pycalendar/timezone.py b/src/pycalendar/timezone.py
index 1647aa3..40a09f9 100644
--- a/src/pycalendar/timezone.py
+++ b/src/pycalendar/timezone.py
@@ -71,7 +71,7 @@ class Timezone(object):
 
     @staticmethod
     def is_float(utc, tzid):
-        return not utc and not tzid
+        return not utc and tzid in (None, "")
 
     def getUTC(self):
         return self.mUTC
-- 
2.43.0


From 438a611d63f98d0e3b81e87b60f9d1505c860f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 020/169] fix: durations compare by value with !=, <= and >=
 too

---
 src/pycalendar/duration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..f7599d2 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -54,6 +54,15 @@ class Duration(ValueMixin):
     def __eq__(self, comp):
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def __ge__(self, comp):
+        return self.getTotalSeconds() >= comp.getTotalSeconds()
+
+    def __le__(self, comp):
+        return self.getTotalSeconds() <= comp.getTotalSeconds()
+
     def __gt__(self, comp):
         return self.getTotalSeconds() > comp.getTotalSeconds()
 
-- 
2.43.0


From fc25232f1502cf3b66cc6922047b8a9bd0f8efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 021/169] fix: periods compare by start and end with every
 operator

---
 src/pycalendar/period.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..cf4cf42 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -59,8 +59,17 @@ class Period(ValueMixin):
     def __eq__(self, comp):
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def __ge__(self, comp):
+        return not self.__lt__(comp)
+
+    def __le__(self, comp):
+        return not comp.__lt__(self)
+
     def __gt__(self, comp):
-        return self.mStart > comp
+        return comp.__lt__(self)
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
-- 
2.43.0


From 9dc3bf4d16cda921096377bb528bacacd41ee362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 022/169] fix: parsing a duration replaces all of its previous
 value

---
 src/pycalendar/duration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index f7599d2..d3e1f15 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -136,6 +136,9 @@ class Duration(ValueMixin):
             offset = 0
             maxoffset = len(data)
 
+            # Forget any previous value
+            self.mWeeks = self.mDays = self.mHours = self.mMinutes = self.mSeconds = 0
+
             # Look for +/-
             self.mForward = True
             if data[offset] in ('-', '+'):
-- 
2.43.0


From d1f462239869506b69fd5d26aa5b18b197a5741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 023/169] fix: reject dates, times and offsets cut off in the
 last digit

---
 src/pycalendar/datetime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 06ee9c5..4a5056d 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -897,6 +897,8 @@ class DateTime(ValueMixin):
         self.mDay = int(data[index:index + 2])
         index += 2
 
+        if index > len(data):
+            raise ValueError("DateTime: date is incomplete")
         if ' ' in data[:index] and ParserContext.INVALID_DATETIME_LEADINGSPACE == ParserContext.PARSER_RAISE:
             raise ValueError("DateTime: spaces not allowed at start")
         if self.mYear < 0 or self.mMonth < 0 or self.mDay < 0:
@@ -920,6 +922,8 @@ class DateTime(ValueMixin):
         self.mSeconds = int(data[index:index + 2])
         index += 2
 
+        if index > len(data):
+            raise ValueError("DateTime: time is incomplete")
         return index
 
     def parseFractionalAndUTCOffset(self, data, index, dlen):
@@ -954,6 +958,8 @@ class DateTime(ValueMixin):
                 # Get minutes
                 minutes_offset = int(data[index:index + 2])
                 index += 2
+                if index > dlen:
+                    raise ValueError("DateTime: TZ offset is incomplete")
 
                 self.mTZID = sign * (hours_offset * 60 + minutes_offset) * 60
 
-- 
2.43.0


From 422241d08564c4183fa32fc99cf26a2607496888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 024/169] fix: a period read with a duration can be read again
 with an end

---
 src/pycalendar/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index cf4cf42..13db0ac 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -94,7 +94,7 @@ class Period(ValueMixin):
                     self.mUseDuration = True
                     self.mEnd = None
                 else:
-                    self.mEnd.parse(end, fullISO)
+                    self.mEnd = DateTime.parseText(end, fullISO)
                     self.mUseDuration = False
                     self.mDuration = None
             else:
-- 
2.43.0


From db09d0b8d8fb633ecc7f843585b0891b3f7ce2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 025/169] fix: cached timezone transitions reach past the year
 end for UTC lookups

---
 src/pycalendar/icalendar/vtimezone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 7274e46..ae9b8d1 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -150,11 +150,12 @@ class VTimezone(Component):
         temp = dt.duplicate()
         temp.setTimezoneID(None)
 
-        # Check whether we need to recache
-        if self.mCachedExpandAllMaxYear is None or temp.mYear >= self.mCachedExpandAllMaxYear:
+        # Check whether we need to recache (a UTC time at the end of a year may already be in the next
+        # year locally, so the next year has to be there too)
+        if self.mCachedExpandAllMaxYear is None or temp.mYear + 1 >= self.mCachedExpandAllMaxYear:
             cacheMax = temp.duplicate()
             cacheMax.setHHMMSS(0, 0, 0)
-            cacheMax.offsetYear(2)
+            cacheMax.offsetYear(3)
             cacheMax.setMonth(1)
             cacheMax.setDay(1)
             self.mCachedExpandAll = self.expandAll(None, cacheMax)
-- 
2.43.0


From 3623635603e3086a0d7a6eb8ab645110ef2983e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 026/169] fix: find timezones when the database path is
 relative or not normalized

---
 src/pycalendar/timezonedb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 7471023..06b6c17 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
+        dbpath = os.path.abspath(self.dbpath)
+        tzpath = os.path.join(dbpath, "%s.ics" % (tzid,))
         tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(os.path.join(self.dbpath, "")) and os.path.isfile(tzpath):
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From 65b4ad6b54a67db325358b01338d3f26f9210303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 027/169] fix: overlapping BYxxx values give each instance of
 an RRULE once

---
 src/pycalendar/icalendar/recurrence.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..0c2bc12 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -963,6 +963,9 @@ class Recurrence(ValueMixin):
             # set_items.sort(cmp=DateTime.sort)
             set_items.sort(key=lambda x: x.getPosixTime())
 
+            # BYxxx values may overlap, but an instance only counts once
+            set_items = self.uniqueSorted(set_items)
+
             # Process each one in the generated set
             for iter in set_items:
 
@@ -1008,6 +1011,10 @@ class Recurrence(ValueMixin):
             # Get next item
             start_iter.recur(self.mFreq, self.mInterval, allow_invalid=True)
 
+    def uniqueSorted(self, dates):
+        # Remove repeated items from a sorted list
+        return [dt for i, dt in enumerate(dates) if i == 0 or dt != dates[i - 1]]
+
     def clear(self):
         self.mCached = False
         self.mFullyCached = False
@@ -1652,6 +1659,7 @@ class Recurrence(ValueMixin):
         # The input dates MUST be sorted in order for this to work properly
         # dates.sort(cmp=DateTime.sort)
         dates.sort(key=lambda x: x.getPosixTime())
+        dates = self.uniqueSorted(dates)
 
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
-- 
2.43.0


From 37a651a9afc10aef56568286da898a6bd93f1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 028/169] fix: BYYEARDAY gives days outside January and
 December

---
 src/pycalendar/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4a5056d..d19758c 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -321,7 +321,7 @@ class DateTime(ValueMixin):
             # Decrement day
             self.mDay += day + 1
 
-        if not allow_invalid:
+        if not allow_invalid or abs(day) != 366:
             # Normalise to get proper year/month/day values
             self.normalise()
         else:
-- 
2.43.0


From e7cd6268c4fc282fe920204c754e556b79da2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 029/169] fix: BYMONTH limits the days of a WEEKLY rule, not
 its weeks

---
 src/pycalendar/icalendar/recurrence.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 0c2bc12..55aa86f 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1155,12 +1155,6 @@ class Recurrence(ValueMixin):
         # Start with initial date-time
         items.append(start.duplicate())
 
-        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            # BYMONTH limits the range of possible values
-            items[:] = self.byMonthLimit(items)
-            if (len(items) == 0):
-                return
-
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoLimit(items)
             if (len(items) == 0):
@@ -1173,6 +1167,13 @@ class Recurrence(ValueMixin):
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             items[:] = self.byDayExpandWeekly(items)
 
+        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
+            # BYMONTH limits the range of possible values - a week can span two months
+            # so this has to look at the days chosen in it
+            items[:] = self.byMonthLimit(items)
+            if (len(items) == 0):
+                return
+
         if (self.mByHours is not None) and (len(self.mByHours) != 0):
             items[:] = self.byHourExpand(items)
 
-- 
2.43.0


From a8354eaecfa8685ec38cb66fed6f8f86102fb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 030/169] fix: BYYEARDAY limits HOURLY, MINUTELY and SECONDLY
 rules

---
 src/pycalendar/icalendar/recurrence.py | 40 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 55aa86f..aa7e5a7 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1234,8 +1234,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateHourlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1250,7 +1248,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1280,8 +1281,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateMinutelySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1296,7 +1295,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1328,8 +1330,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateSecondlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1344,7 +1344,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1575,6 +1578,25 @@ class Recurrence(ValueMixin):
 
         return output
 
+    def byYearDayLimit(self, dates):
+        # Loop over all input items
+        output = []
+        for iter1 in dates:
+            # Loop over each BYYEARDAY and indicate keep if input year day
+            # matches
+            keep = False
+            for iter2 in self.mByYearDay:
+                temp = iter1.duplicate()
+                temp.setYearDay(iter2, allow_invalid=True)
+                keep = not temp.invalid() and temp.getYearDay() == iter1.getYearDay()
+                if keep:
+                    break
+
+            if keep:
+                output.append(iter1)
+
+        return output
+
     def byMonthDayLimit(self, dates):
         # Loop over all input items
         output = []
-- 
2.43.0


From ba30d07a31d3be62bc970cfe6cf4e622dd01e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 031/169] fix: a 53rd weekday a year does not have is not an
 instance of a YEARLY rule

---
 src/pycalendar/icalendar/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index aa7e5a7..5d3f0dd 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1443,7 +1443,8 @@ class Recurrence(ValueMixin):
                 if iter2[0] != 0:
                     temp = iter1.duplicate()
                     temp.setDayOfWeekInYear(iter2[0], iter2[1])
-                    output.append(temp)
+                    if temp.getYear() == (iter1).getYear():
+                        output.append(temp)
                 else:
                     # Every matching day in the year
                     for i in range(1, 54):
-- 
2.43.0


From 4e8be88e90636eef2f9a66a66b072f507e0c9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 032/169] fix: BYWEEKNO counts the weeks of the year it
 expands, from either end

---
 src/pycalendar/icalendar/recurrence.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 5d3f0dd..edd0af0 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1397,11 +1397,23 @@ class Recurrence(ValueMixin):
         # Loop over all input items
         output = []
         for iter1 in dates:
+            # The last week of the year always contains the 28th December
+            weeks = DateTime(year=iter1.getYear(), month=12, day=28).getWeekNo()
+
             # Loop over each BYWEEKNO and generating a new date-time for it and
             # insert into output
             for iter2 in self.mByWeekNo:
+                # Negative values are offset from the last week, and not all
+                # years have a week 53
+                weekno = iter2 if iter2 > 0 else weeks + 1 + iter2
+                if weekno < 1 or weekno > weeks:
+                    continue
+
+                # Start from the middle of the year as the date itself might be in
+                # a week of the previous or next year
                 temp = iter1.duplicate()
-                temp.setWeekNo(iter2)
+                temp.setDayOfWeekInYear(26, iter1.getDayOfWeek())
+                temp.setWeekNo(weekno)
                 output.append(temp)
 
         return output
-- 
2.43.0


From 4cd5ba4bca4fba187aa03c902e42444bd8997831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 033/169] fix: the instance limit of an RRULE does not depend
 on what is cached

---
 src/pycalendar/icalendar/recurrence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index edd0af0..e2ab3d4 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -857,6 +857,7 @@ class Recurrence(ValueMixin):
 
             # Always wipe the existing cached items as we always start from the very first instance
             # so we can properly track the count limit
+            self.mCached = False
             self.mRecurrences = []
 
             # Simple expansion is one where there is no BYXXX rule part
@@ -870,6 +871,11 @@ class Recurrence(ValueMixin):
             self.mCacheStart = start
             self.mCacheUpto = range.getEnd()
 
+        # The limit applies to cached items too
+        if maxInstances:
+            if len([iter for iter in self.mRecurrences if not range.isDateAfterPeriod(iter)]) > maxInstances:
+                raise TooManyInstancesError("Too many instances")
+
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
-- 
2.43.0


From 6ef0f955d78060ff7ba0acb9edcb72c08f337d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 034/169] fix: changing an expansion's start or instances does
 not change the cached expansion

---
 src/pycalendar/icalendar/recurrence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index e2ab3d4..2f6ea3b 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -868,7 +868,7 @@ class Recurrence(ValueMixin):
 
             # Set cache values
             self.mCached = True
-            self.mCacheStart = start
+            self.mCacheStart = start.duplicate()
             self.mCacheUpto = range.getEnd()
 
         # The limit applies to cached items too
@@ -880,7 +880,7 @@ class Recurrence(ValueMixin):
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
-- 
2.43.0


From afb98c0d99da4bef03f7396c068849a0944e07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 035/169] fix: reject BYSETPOS values out of range

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 2f6ea3b..fb618b9 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -447,7 +447,7 @@ class Recurrence(ValueMixin):
                 if self.mBySetPos is not None:
                     raise ValueError("Recurrence: Only one BYSETPOS allowed")
                 self.mBySetPos = []
-                self.parseList(tvalue, self.mBySetPos, allowNegative=True, errmsg="Recurrence: Invalid BYSETPOS value")
+                self.parseList(tvalue, self.mBySetPos, 1, 366, True, errmsg="Recurrence: Invalid BYSETPOS value")
 
             elif index == definitions.eRecurrence_WKST:
                 index = Recurrence.cWeekdayMap.get(tvalue, Recurrence.cUnknownIndex)
-- 
2.43.0


From 3e3060386c674158d61d493c63338998b9e9c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 036/169] fix: reject an RRULE without FREQ or with a part
 given twice

---
 src/pycalendar/icalendar/recurrence.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index fb618b9..ece696c 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -340,6 +340,7 @@ class Recurrence(ValueMixin):
         if len(tokens) == 0:
             raise ValueError("Recurrence: Invalid recurrence rule value")
 
+        seen = set()
         while len(tokens) != 0:
             # Get next token
             token = tokens.pop()
@@ -353,6 +354,11 @@ class Recurrence(ValueMixin):
             if index == Recurrence.cUnknownIndex:
                 raise ValueError("Recurrence: Invalid token '%s'" % (tname,))
 
+            # Each one is only allowed once
+            if tname in seen:
+                raise ValueError("Recurrence: Only one %s allowed" % (tname,))
+            seen.add(tname)
+
             # Parse remainder based on index
             if index == definitions.eRecurrence_FREQ:
                 # Get the FREQ value
@@ -455,6 +461,10 @@ class Recurrence(ValueMixin):
                     raise ValueError("Recurrence: Invalid WKST value")
                 self.mWeekstart = index
 
+        # Must have a frequency
+        if definitions.cICalValue_RECUR_FREQ not in seen:
+            raise ValueError("Recurrence: Must have a FREQ")
+
     def parseList(self, txt, list, min=None, max=None, allowNegative=False, errmsg=""):
 
         if "," in txt:
-- 
2.43.0


From 9b165fb0f2cef45c10a694fef48235bee793781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 037/169] fix: equal RRULEs with lists in another order have
 equal hashes

---
 src/pycalendar/icalendar/recurrence.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index ece696c..8844e90 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -177,15 +177,15 @@ class Recurrence(ValueMixin):
             self.mUseUntil,
             self.mUntil,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
-- 
2.43.0


From 49e3fac711ffff056d7fa2636cc38bfb4675b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 038/169] fix: instances stay in order when some are excluded

---
 src/pycalendar/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 2963448..d6899d6 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -530,7 +530,5 @@ def set_difference(v1, v2):
     if len(v1) == 0 or len(v2) == 0:
         return v1
 
-    s1 = set(v1)
     s2 = set(v2)
-    s3 = s1.difference(s2)
-    return list(s3)
+    return [i for i in v1 if i not in s2]
-- 
2.43.0


From 431391bdd6fc1a0ed4593a22b47154e43bb9dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 039/169] fix: expand recurrence sets that have RDATE periods

---
 src/pycalendar/componentbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..3888027 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -538,9 +538,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
-- 
2.43.0


From 7a0f7e6cab18536caed61147922ddf508376d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 040/169] fix: comparing recurrence sets

---
 src/pycalendar/icalendar/recurrenceset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..b409ba1 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -47,23 +47,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -111,7 +111,7 @@ class RecurrenceSet(object):
         dt1.sort(key=lambda x: x.getPosixTime())
         dt2.sort(key=lambda x: x.getPosixTime())
 
-        return dt1.equal(dt2)
+        return dt1 == dt2
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -127,7 +127,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
-- 
2.43.0


From 519e5a2b794825b289509bed0c7ebdd7868aaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 041/169] fix: describing a recurrence set that has one rule

---
 src/pycalendar/icalendar/recurrenceset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index b409ba1..dd76d65 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -258,7 +258,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isSimpleRule()
+            return self.mRrules[0].isSimpleRule()
         else:
             return True
 
@@ -270,7 +270,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isAdvancedRule()
+            return self.mRrules[0].isAdvancedRule()
         else:
             return True
 
@@ -289,7 +289,7 @@ class RecurrenceSet(object):
         if ((len(self.mRrules) == 1) and (len(self.mExrules) == 0) and (len(self.mRdates) == 0) and
                 (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                 (len(self.mExperiods) == 0)):
-            return self.mRrules.firstElement().getUIDescription()
+            return self.mRrules[0].getUIDescription()
 
         # Indicate some form of complex recurrence
         return "Multiple recurrence rules, dates or exclusions"
-- 
2.43.0


From 3c14bb2797e6ce57a35c0e98b024f8505d7f12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 042/169] fix: changing an expanded instance does not change
 DTSTART or RDATE

---
 src/pycalendar/icalendar/recurrenceset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index dd76d65..ecebb6b 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -174,7 +174,7 @@ class RecurrenceSet(object):
 
         # Always include the initial DTSTART if within the range
         if range.isDateWithinPeriod(start):
-            include.append(start)
+            include.append(start.duplicate())
         else:
             limited = True
 
@@ -186,14 +186,14 @@ class RecurrenceSet(object):
         # RDATES
         for iter in self.mRdates:
             if range.isDateWithinPeriod(iter):
-                include.append(iter)
+                include.append(iter.duplicate())
                 if maxInstances and len(include) > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
         for iter in self.mRperiods:
             if range.isPeriodOverlap(iter):
-                include.append(iter.getStart())
+                include.append(iter.getStart().duplicate())
                 if maxInstances and len(include) > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             else:
-- 
2.43.0


From 99b0fa9f4d804467e5b07cb92dabeaa528651527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 043/169] fix: ending a recurrence set before a date

---
 src/pycalendar/icalendar/recurrence.py    | 22 ++++++++++++++--------
 src/pycalendar/icalendar/recurrenceset.py |  6 ++----
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 8844e90..2b19b04 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1046,18 +1046,24 @@ class Recurrence(ValueMixin):
     # Exclude dates on or after the chosen one
     def excludeFutureRecurrence(self, exclude):
         # Expand the rule up to the exclude date
+        start = self.mCacheStart
         items = []
-        period = Period()
-        period.init(self.mCacheStart, exclude)
-        self.expand(self.mCacheStart, period, items)
+        period = Period(start, exclude)
+        self.expand(start, period, items)
+
+        # The start is always the first one
+        if len(items) == 0 or items[0] != start:
+            items.insert(0, start.duplicate())
 
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
-            # The last one is just less than the exclude date
-            if len(items) != 0:
-                # Now use the data as the UNTIL
-                self.mUseUntil = True
-                self.mUntil = items[-1]
+            # The last one is just less than the exclude date - use it as the UNTIL,
+            # which is in UTC unless the start is floating or all day
+            until = items[-1]
+            if not until.isDateOnly() and not until.floating():
+                until.adjustToUTC()
+            self.mUseUntil = True
+            self.mUntil = until
 
         # Adjust COUNT
         elif self.getUseCount():
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index ecebb6b..b4a7b59 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -242,10 +242,8 @@ class RecurrenceSet(object):
             iter.excludeFutureRecurrence(exclude)
 
         # Remove RDATES on or after start
-        self.mRdates.removeOnOrAfter(exclude)
-        for iter in self.mRperiods:
-            if iter > exclude:
-                self.mRperiods.remove(iter)
+        self.mRdates = [iter for iter in self.mRdates if iter < exclude]
+        self.mRperiods = [iter for iter in self.mRperiods if iter.getStart() < exclude]
 
     # UI operations
     def isSimpleUI(self):
-- 
2.43.0


From 97a51d523fa5e4aee39cc7db24ee69f65fb04607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 044/169] fix: RDATE periods are in the time zone of their TZID

---
 src/pycalendar/icalendar/property.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 02a42ff..0303d12 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -266,7 +266,7 @@ class Property(PropertyBase):
         """
 
         # Look for TZID parameter
-        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME) and self.hasParameter(definitions.cICalParameter_TZID):
+        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
             if isinstance(self.mValue, DateTimeValue):
@@ -276,6 +276,11 @@ class Property(PropertyBase):
                 for item in self.mValue.getValues():
                     if isinstance(item, DateTimeValue):
                         item.getValue().setTimezoneID(tzid)
+                    elif isinstance(item, PeriodValue):
+                        period = item.getValue()
+                        for dt in (period.getStart(),) if period.getUseDuration() else (period.getStart(), period.getEnd()):
+                            if dt.floating():
+                                dt.setTimezoneID(tzid)
 
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
-- 
2.43.0


From 2bd72b3d0a677479dbd77b19922e69029498c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 045/169] fix: RDATE and EXDATE properties created from one
 date count too

---
 src/pycalendar/componentbase.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3888027..80e6a44 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -527,20 +527,21 @@ class ComponentBase(object):
         # Get RDATEs
         if self.hasProperty(value_name):
             for iter in self.getProperties(value_name):
+                # A property created from a single date-time or period does not have a multi-value
                 mvalue = iter.getMultiValue()
-                if (mvalue is not None):
-                    for obj in mvalue.getValues():
-                        # cast to date-time
-                        if isinstance(obj, DateTimeValue):
-                            if add:
-                                value.addDT(obj.getValue())
-                            else:
-                                value.subtractDT(obj.getValue())
-                        elif isinstance(obj, PeriodValue):
-                            if add:
-                                value.addPeriod(obj.getValue())
-                            else:
-                                value.subtractPeriod(obj.getValue())
+                values = mvalue.getValues() if mvalue is not None else [iter.getValue()]
+                for obj in values:
+                    # cast to date-time
+                    if isinstance(obj, DateTimeValue):
+                        if add:
+                            value.addDT(obj.getValue())
+                        else:
+                            value.subtractDT(obj.getValue())
+                    elif isinstance(obj, PeriodValue):
+                        if add:
+                            value.addPeriod(obj.getValue())
+                        else:
+                            value.subtractPeriod(obj.getValue())
 
             return True
         else:
-- 
2.43.0


From 61064c8579689b0a92eac1c593a66c3ac5e02412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 046/169] fix: editing the recurrence set of a component

---
 src/pycalendar/icalendar/componentrecur.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..f041b37 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -597,12 +597,15 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.getExrules():
+        for iter in self.mRecurrences.getExrules():
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
         for iter in self.mRecurrences.getDates():
             prop = Property(definitions.cICalProperty_RDATE, iter)
             self.addProperty(prop)
+        for iter in self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
+            self.addProperty(prop)
         for iter in self.mRecurrences.getExdates():
             prop = Property(definitions.cICalProperty_EXDATE, iter)
             self.addProperty(prop)
@@ -613,7 +616,7 @@ class ComponentRecur(Component):
             return
 
         # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
+        self.mRecurrences.subtractDT(start)
 
         # Add property
         prop = Property(definitions.cICalProperty_EXDATE, start)
@@ -638,6 +641,9 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getDates():
             prop = Property(definitions.cICalProperty_RDATE, iter)
             self.addProperty(prop)
+        for iter in self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
+            self.addProperty(prop)
 
     def initFromMaster(self):
         # Only if not master
-- 
2.43.0


From 5486f0108df9810f87134b2627c91b814c47067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 047/169] fix: RDATE periods created in a time zone have its
 TZID

---
 src/pycalendar/icalendar/property.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 0303d12..0cf3833 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -334,6 +334,13 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if len(periodlist) > 0 and not periodlist[0].getStart().isDateOnly() and periodlist[0].getStart().local():
+            if definitions.cICalParameter_TZID in self.mParameters:
+                del self.mParameters[definitions.cICalParameter_TZID]
+            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
+                Parameter(name=definitions.cICalParameter_TZID, value=periodlist[0].getStart().getTimezoneID()))
+
     def _init_attr_value_duration(self, du):
         # Value
         self.mValue = DurationValue(value=du)
-- 
2.43.0


From c1a9b7a8b230cb51705202d639a10af433bbc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 048/169] fix: expanded components are listed in order of their
 start

---
 src/pycalendar/icalendar/componentexpanded.py | 23 +++++-------
 src/pycalendar/icalendar/componentrecur.py    | 35 ++++++++-----------
 2 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..61e6572 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -23,33 +23,28 @@ class ComponentExpanded(object):
     def sort_by_dtstart_allday(e1, e2):
 
         if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
+            return e1.mInstanceStart.compareDateTime(e2.mInstanceStart)
         elif e1.mInstanceStart.isDateOnly():
-            return True
+            return -1
         elif e2.mInstanceStart.isDateOnly():
-            return False
+            return 1
         elif e1.mInstanceStart == e2.mInstanceStart:
             if e1.mInstanceEnd == e2.mInstanceEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
+                return e1.getOwner().getStamp().compareDateTime(e2.getOwner().getStamp())
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+                return e2.mInstanceEnd.compareDateTime(e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return e1.mInstanceStart.compareDateTime(e2.mInstanceStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
         if e1.mInstanceStart == e2.mInstanceStart:
-            if (
-                e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
-                not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
-            ):
-                return e1.mInstanceStart.isDateOnly()
-            else:
-                return False
+            # Put all day ones first
+            return cmp(e2.mInstanceStart.isDateOnly(), e1.mInstanceStart.isDateOnly())
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return e1.mInstanceStart.compareDateTime(e2.mInstanceStart)
 
     def __init__(self, owner, rid):
 
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index f041b37..9dcfe3f 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -44,34 +44,29 @@ class ComponentRecur(Component):
     @staticmethod
     def sort_by_dtstart_allday(e1, e2):
 
-        if e1.self.mStart.isDateOnly() and e2.self.mStart.isDateOnly():
-            return e1.self.mStart < e2.self.mStart
-        elif e1.self.mStart.isDateOnly():
-            return True
-        elif (e2.self.mStart.isDateOnly()):
-            return False
-        elif e1.self.mStart == e2.self.mStart:
-            if e1.self.mEnd == e2.self.mEnd:
+        if e1.mStart.isDateOnly() and e2.mStart.isDateOnly():
+            return e1.mStart.compareDateTime(e2.mStart)
+        elif e1.mStart.isDateOnly():
+            return -1
+        elif e2.mStart.isDateOnly():
+            return 1
+        elif e1.mStart == e2.mStart:
+            if e1.mEnd == e2.mEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.self.mStamp < e2.self.mStamp
+                return e1.mStamp.compareDateTime(e2.mStamp)
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.self.mEnd > e2.self.mEnd
+                return e2.mEnd.compareDateTime(e1.mEnd)
         else:
-            return e1.self.mStart < e2.self.mStart
+            return e1.mStart.compareDateTime(e2.mStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
-        if e1.self.mStart == e2.self.mStart:
-            if (
-                e1.self.mStart.isDateOnly() and e2.self.mStart.isDateOnly() or
-                not e1.self.mStart.isDateOnly() and not e2.self.mStart.isDateOnly()
-            ):
-                return False
-            else:
-                return e1.self.mStart.isDateOnly()
+        if e1.mStart == e2.mStart:
+            # Put all day ones first
+            return cmp(e2.mStart.isDateOnly(), e1.mStart.isDateOnly())
         else:
-            return e1.self.mStart < e2.self.mStart
+            return e1.mStart.compareDateTime(e2.mStart)
 
     def __init__(self, parent=None):
         super(ComponentRecur, self).__init__(parent=parent)
-- 
2.43.0


From 5285116005b51515a9f8213823bff7f79b5c64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 049/169] fix: instances of all-day events and events with a
 DURATION have their length

---
 src/pycalendar/icalendar/componentexpanded.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 61e6572..01ac315 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -114,11 +114,8 @@ class ComponentExpanded(object):
             # Start of the recurrence instance is the recurrence id
             self.mInstanceStart = rid
 
-            # End is based on original events settings
-            if self.mOwner.hasEnd():
-                self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
-            else:
-                self.mInstanceEnd = self.mInstanceStart.duplicate()
+            # End is based on original events settings (which may have been given as a duration)
+            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
             self.mRecurring = True
 
-- 
2.43.0


From c6c33dea162715e4e88fa4f9129c5c5764cc12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 050/169] fix: changing an expanded instance does not change
 the event's start or end

---
 src/pycalendar/icalendar/componentexpanded.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 01ac315..cb4dbeb 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -103,8 +103,8 @@ class ComponentExpanded(object):
         # rid is not set if the owner is the master (case 1)
         if rid is None:
             # Just get start/end from owner
-            self.mInstanceStart = self.mOwner.getStart()
-            self.mInstanceEnd = self.mOwner.getEnd()
+            self.mInstanceStart = self.mOwner.getStart().duplicate()
+            self.mInstanceEnd = self.mOwner.getEnd().duplicate()
             self.mRecurring = False
 
         # If the owner is not a recurrence instance then it is case 2
@@ -123,8 +123,8 @@ class ComponentExpanded(object):
         # as the component rid we have case 3
         elif rid == self.mOwner.getRecurrenceID():
             # Derive start/end directly from the owner
-            self.mInstanceStart = self.mOwner.getStart()
-            self.mInstanceEnd = self.mOwner.getEnd()
+            self.mInstanceStart = self.mOwner.getStart().duplicate()
+            self.mInstanceEnd = self.mOwner.getEnd().duplicate()
 
             self.mRecurring = True
 
-- 
2.43.0


From 6fb615ae2fbcb9fda59d72e8ca2b24d69a513ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 051/169] fix: overridden instances with RANGE change the
 instances after or before them

---
 src/pycalendar/icalendar/componentrecur.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 9dcfe3f..0d80c0f 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -423,8 +423,8 @@ class ComponentRecur(Component):
                             results.append(self.createExpanded(self, iter))
                     else:
                         # Sort each list first
-                        prior.sort(self.sort_by_dtstart)
-                        future.sort(self.sort_by_dtstart)
+                        prior.sort(key=lambda x: x.getRecurrenceID())
+                        future.sort(key=lambda x: x.getRecurrenceID())
 
                         # Add each expanded item
                         for iter1 in items:
@@ -434,16 +434,14 @@ class ComponentRecur(Component):
                             slave = None
 
                             # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, 0, -1):
-                                riter2 = prior[i]
-                                if riter2.getStart() > iter1:
+                            for riter2 in prior:
+                                if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
                                     break
 
                             # Find most appropriate THISANDFUTURE item
-                            for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
-                                if riter2.getStart() < iter1:
+                            for riter2 in reversed(future):
+                                if riter2.getRecurrenceID() < iter1:
                                     slave = riter2
                                     break
 
-- 
2.43.0


From b153e7a1295e1410d01c4ca987f32c40e94e4944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 052/169] fix: folding ends on runs of octets that are not
 UTF-8

---
 src/pycalendar/property.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index cf76b2c..879f08c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -380,6 +380,11 @@ class PropertyBase(object):
                         # Step back until we have a valid char
                         offset -= 1
 
+                        # Not utf8 if there are too many trail bytes, so there is no valid char to find
+                        if start + lineWrap - offset > 3:
+                            offset = start + lineWrap
+                            break
+
                     line = temp[start:offset]
                     os.write(line)
                     os.write("\r\n ")
-- 
2.43.0


From ed5d6c5d0bdded0a7f8142b1fe53a9d9ff491abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 053/169] fix: parameters are equal whatever the order of their
 values, which is not kept

---
 src/pycalendar/parameter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index cb5ddbc..8b50505 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -42,7 +42,7 @@ class Parameter(object):
         return other
 
     def __hash__(self):
-        return hash((self.mName.upper(), tuple(self.mValues)))
+        return hash((self.mName.upper(), tuple(sorted(self.mValues))))
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -50,7 +50,8 @@ class Parameter(object):
     def __eq__(self, other):
         if not isinstance(other, Parameter):
             return False
-        return self.mName.upper() == other.mName.upper() and self.mValues == other.mValues
+        # The order of values is not significant (they are always written out sorted)
+        return self.mName.upper() == other.mName.upper() and sorted(self.mValues) == sorted(other.mValues)
 
     def getName(self):
         return self.mName
-- 
2.43.0


From 1dc7d2e3beafc884604b55caeb24ac29a00e3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 054/169] fix: reading a vCard property ends when text follows
 a quoted parameter value

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index a729ba1..769c73d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -260,6 +260,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # Terminate the loop when something other than a delimiter follows a quoted value
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From 9253d64c40af2d0e6c60622fc28f48187e8a8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 055/169] fix: floats and GEO are written with all their digits
 and without exponents

---
 src/pycalendar/floatvalue.py | 5 +++--
 src/pycalendar/geovalue.py   | 7 ++++---
 src/pycalendar/utils.py      | 9 +++++++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/floatvalue.py b/src/pycalendar/floatvalue.py
index 33d73d8..76b13f9 100644
--- a/src/pycalendar/floatvalue.py
+++ b/src/pycalendar/floatvalue.py
@@ -17,6 +17,7 @@
 # iCalendar float value
 
 from pycalendar import xmldefinitions
+from pycalendar.utils import floatText
 from pycalendar.value import Value
 
 
@@ -37,13 +38,13 @@ class FloatValue(Value):
     # os - StringIO object
     def generate(self, os):
         try:
-            os.write(str(self.mValue))
+            os.write(floatText(self.mValue))
         except:
             pass
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = str(self.mValue)
+        value.text = floatText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = float(jobject)
diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index e33a0da..c0b8d6c 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -19,6 +19,7 @@
 from pycalendar import xmlutils
 from pycalendar.exceptions import InvalidData
 from pycalendar.icalendar import xmldefinitions
+from pycalendar.utils import floatText
 from pycalendar.value import Value
 from pycalendar import xmldefinitions as xmldefinitions_top
 import xml.etree.cElementTree as XML
@@ -59,16 +60,16 @@ class GeoValue(Value):
 
     # os - StringIO object
     def generate(self, os):
-        os.write("%s;%s" % (self.mValue[0], self.mValue[1],))
+        os.write("%s;%s" % (floatText(self.mValue[0]), floatText(self.mValue[1]),))
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
 
         latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = str(self.mValue[0])
+        latitude.text = floatText(self.mValue[0])
 
         longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = str(self.mValue[1])
+        longitude.text = floatText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index d6899d6..378128c 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -16,6 +16,7 @@
 
 from pycalendar.parser import ParserContext
 import cStringIO as StringIO
+import decimal
 
 
 def readFoldedLine(ins, lines):
@@ -192,6 +193,14 @@ def decodeTextValue(value):
     return os.getvalue()
 
 
+def floatText(value):
+    """
+    Text of a float value with all its digits and without an exponent.
+    """
+    text = repr(value)
+    return format(decimal.Decimal(text), "f") if "e" in text else text
+
+
 def encodeParameterValue(value):
     """
     RFC6868 parameter encoding.
-- 
2.43.0


From eeccc5d188a81aaaccac90e28c7d55e05b32a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 056/169] fix: VALUE is kept for values of a type the library
 does not know

---
 src/pycalendar/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 879f08c..3d97b9f 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -582,6 +582,10 @@ class PropertyBase(object):
         self._postCreateValue(value_type)
 
     def setupValueParameter(self):
+        # The parameter is all there is to tell the type of a value of unknown type
+        if isinstance(self.mValue, UnknownValue):
+            return
+
         if self.sValue in self.mParameters:
             del self.mParameters[self.sValue]
 
-- 
2.43.0


From 88b08505edbd1ddb1f39bfa9a1ed96df6a5b33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 057/169] fix: refuse a property without a value separator

---
 src/pycalendar/property.py       | 2 ++
 src/pycalendar/vcard/property.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 3d97b9f..e184dad 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -312,6 +312,8 @@ class PropertyBase(object):
                 else:
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
+            else:
+                raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 769c73d..aa4c0ad 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -263,6 +263,8 @@ class Property(PropertyBase):
                 else:
                     # Terminate the loop when something other than a delimiter follows a quoted value
                     raise InvalidProperty("Invalid property: missing value separator", data)
+            else:
+                raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From 8fbd834bd55875da9e4871944ceb854e86c9c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 058/169] fix: VALUE is read in any case

---
 src/pycalendar/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index e184dad..efaf8e7 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -519,7 +519,7 @@ class PropertyBase(object):
         # Check whether custom value is set
         if self.sValue in self.mParameters:
             attr = self.getParameterValue(self.sValue)
-            value_type = self.sValueTypeMap.get(attr, value_type)
+            value_type = self.sValueTypeMap.get(attr.upper(), value_type)
 
         # Check for specials
         if self.mName.upper() in self.sSpecialVariants:
@@ -569,7 +569,7 @@ class PropertyBase(object):
 
         # Check whether custom value is set
         if self.sValue in self.mParameters:
-            value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue), value_type)
+            value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue).upper(), value_type)
 
         # Check for multivalued
         if self.mName.upper() in self.sMultiValues:
-- 
2.43.0


From 6d0627e694cd05054d153804701cb553408e4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 059/169] fix: components with a property more or less often
 compared equal

---
 src/pycalendar/componentbase.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 80e6a44..d78a1dc 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -19,6 +19,7 @@ from pycalendar import xmldefinitions, xmlutils
 from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.periodvalue import PeriodValue
 from pycalendar.value import Value
+import collections
 import xml.etree.cElementTree as XML
 from pycalendar.exceptions import InvalidComponent, ErrorBase
 
@@ -148,12 +149,14 @@ class ComponentBase(object):
         return ()
 
     def compareProperties(self, other):
-        mine = set()
+        mine = collections.defaultdict(int)
         for props in self.mProperties.values():
-            mine.update(props)
-        theirs = set()
+            for prop in props:
+                mine[prop] += 1
+        theirs = collections.defaultdict(int)
         for props in other.mProperties.values():
-            theirs.update(props)
+            for prop in props:
+                theirs[prop] += 1
         return mine == theirs
 
     def getProperties(self, propname=None):
-- 
2.43.0


From 47b069ee815a152bfce15915bcd849f97fa45b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 060/169] fix: components cut off by the end of the calendar
 were dropped, and stray ENDs kept as properties

---
 src/pycalendar/containerbase.py      |  8 ++++++++
 src/pycalendar/icalendar/calendar.py | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..0d18938 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -163,6 +163,10 @@ class ContainerBase(ComponentBase):
                 # Look for end of object
                 elif line == self.getEndDelimiter():
 
+                    # All components must have ended
+                    if componentstack:
+                        raise InvalidData("%s component not complete" % (self.sContainerDescriptor,), comp.getType())
+
                     # Finalise the current calendar
                     self.finalise()
 
@@ -179,6 +183,10 @@ class ContainerBase(ComponentBase):
                     componentstack[-1][0].addComponent(comp)
                     comp, compend = componentstack.pop()
 
+                # End of something that is not current
+                elif line.startswith("END:"):
+                    raise InvalidData("%s data has unexpected end" % (self.sContainerDescriptor,), line)
+
                 # Blank line
                 elif len(line) == 0:
                     # Raise if requested, otherwise just ignore
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..d4f5ef0 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -260,6 +260,10 @@ class Calendar(ContainerBase):
 
                 elif line == self.getEndDelimiter():
 
+                    # All components must have ended
+                    if componentstack:
+                        raise InvalidData("iCalendar component not complete", comp.getType())
+
                     # Change state
                     state = GOT_VCALENDAR
 
@@ -273,6 +277,10 @@ class Calendar(ContainerBase):
                     componentstack[-1][0].addComponent(comp)
                     comp, compend = componentstack.pop()
 
+                # End of something that is not current
+                elif line.startswith("END:"):
+                    raise InvalidData("iCalendar data has unexpected end", line)
+
                 # Blank line
                 elif len(line) == 0:
                     # Raise if requested, otherwise just ignore
@@ -297,6 +305,10 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
-- 
2.43.0


From aab459773f82e14a6b6a2d5904a5b1ce467312fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 061/169] fix: malformed GEO in jCal was accepted and failed
 when written

---
 src/pycalendar/geovalue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index c0b8d6c..50dce2b 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -72,7 +72,11 @@ class GeoValue(Value):
         longitude.text = floatText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
-        self.mValue = jobject
+        try:
+            latitude, longitude = jobject
+            self.mValue = [float(latitude), float(longitude)]
+        except (TypeError, ValueError):
+            raise InvalidData("GEO value incorrect", jobject)
 
     def writeJSONValue(self, jobject):
         jobject.append(list(self.mValue))
-- 
2.43.0


From ffbde42c168ffb7d40b632c9f403f34fbcbc51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 062/169] fix: JSON of another kind of object was read as a
 calendar or card

---
 src/pycalendar/containerbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 0d18938..7cb26f5 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -226,7 +226,10 @@ class ContainerBase(ComponentBase):
             jobject = json.loads(data)
         except ValueError as e:
             raise InvalidData("JSON parse: {}".format(e), data)
-        return cls.parseJSON(jobject, None, cls(add_defaults=False))
+        result = cls(add_defaults=False)
+        if not isinstance(jobject, list) or not jobject or not isinstance(jobject[0], basestring) or jobject[0].upper() != result.getType():
+            raise InvalidData("%s data not recognized" % (cls.sContainerDescriptor,), data)
+        return cls.parseJSON(jobject, None, result)
 
     def getText(self, format=None):
 
-- 
2.43.0


From 637b8109dc60ef023b2a3719ff2bc08081eb8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 063/169] fix: parser options that allow invalid escapes pass
 them through

---
 src/pycalendar/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 378128c..1f4199d 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -170,12 +170,16 @@ def decodeTextValue(value):
                     raise ValueError("TextValue: '\\:' not allowed")
                 elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_FIX:
                     os.write(':')
+                elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_ALLOW:
+                    os.write("\\:")
 
             # Other escaped chars normally not allowed
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_RAISE:
                 raise ValueError("TextValue: '\\{}' not allowed".format(c))
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_FIX:
                 os.write(c)
+            elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_ALLOW:
+                os.write("\\" + c)
 
             # Bump past escapee and look for next segment (not past the end)
             start_pos = end_pos + 1
-- 
2.43.0


From ee8ebe7fe4d7ac9da7d33ba06c6ebcb5421f5ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 064/169] fix: allRaise raises for spaces in dates too

---
 src/pycalendar/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/parser.py b/src/pycalendar/parser.py
index 7ce1509..0f6a185 100644
--- a/src/pycalendar/parser.py
+++ b/src/pycalendar/parser.py
@@ -75,6 +75,8 @@ class ParserContext(object):
         ParserContext.BLANK_LINES_IN_DATA = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_NO_PARAMETER_VALUES = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_BASE64 = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_VALUE = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_LEADINGSPACE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_ADR_N_VALUES = ParserContext.PARSER_RAISE
         ParserContext.INVALID_REQUEST_STATUS_VALUE = ParserContext.PARSER_RAISE
-- 
2.43.0


From c42b51c61d92fb227baf1bd599bed8039fb28749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 065/169] fix: BEGIN and END lines inside a card were kept as
 properties

---
 src/pycalendar/containerbase.py | 6 +++---
 src/pycalendar/vcard/card.py    | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 7cb26f5..67399e7 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -183,9 +183,9 @@ class ContainerBase(ComponentBase):
                     componentstack[-1][0].addComponent(comp)
                     comp, compend = componentstack.pop()
 
-                # End of something that is not current
-                elif line.startswith("END:"):
-                    raise InvalidData("%s data has unexpected end" % (self.sContainerDescriptor,), line)
+                # End of something that is not current, or start of something where nothing can be nested
+                elif line.startswith("END:") or line.startswith("BEGIN:"):
+                    raise InvalidData("%s data has unexpected start or end" % (self.sContainerDescriptor,), line)
 
                 # Blank line
                 elif len(line) == 0:
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..fa9e038 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -137,6 +137,10 @@ class Card(ContainerBase):
                     if ParserContext.BLANK_LINES_IN_DATA == ParserContext.PARSER_RAISE:
                         raise InvalidData("vCard data has blank lines")
 
+                # Cards cannot be nested
+                elif line.startswith("END:") or line.startswith("BEGIN:"):
+                    raise InvalidData("vCard data has unexpected start or end", line)
+
                 # Must be a property
                 else:
 
-- 
2.43.0


From eae3e7b057f1b8547e15ed85030d75c3f7c1b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 066/169] fix: GEO, REQUEST-STATUS and UNTIL have the XML
 elements of RFC 6321

---
 src/pycalendar/geovalue.py                     | 7 +++----
 src/pycalendar/icalendar/recurrence.py         | 2 +-
 src/pycalendar/icalendar/requeststatusvalue.py | 9 ++++-----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 50dce2b..0b011bb 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -63,12 +63,11 @@ class GeoValue(Value):
         os.write("%s;%s" % (floatText(self.mValue[0]), floatText(self.mValue[1]),))
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
+        # RFC 6321 has the two elements directly in the property
+        latitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
         latitude.text = floatText(self.mValue[0])
 
-        longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
+        longitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
         longitude.text = floatText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 2b19b04..3870772 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -657,7 +657,7 @@ class Recurrence(ValueMixin):
             count.text = str(self.mCount)
         elif self.mUseUntil:
             until = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_until))
-            self.mUntil.writeXML(until, namespace)
+            until.text = self.mUntil.getXMLText()
 
         if self.mInterval > 1:
             interval = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_interval))
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 510f88d..9a7b30f 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -78,16 +78,15 @@ class RequestStatusValue(Value):
         utils.generateTextList(os, self.mValue if len(self.mValue) < 3 or self.mValue[2] else self.mValue[:2])
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        code = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
+        # RFC 6321 has the elements directly in the property
+        code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
         code.text = self.mValue[0]
 
-        description = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
+        description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
         description.text = self.mValue[1]
 
         if len(self.mValue) == 3 and self.mValue[2]:
-            data = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
+            data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
-- 
2.43.0


From b65c58097033eef75f68a83c402978230da87b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 067/169] fix: text that is not ASCII is written in XML as it
 is

---
 src/pycalendar/icalendar/requeststatusvalue.py | 6 +++---
 src/pycalendar/parameter.py                    | 2 +-
 src/pycalendar/plaintextvalue.py               | 3 ++-
 src/pycalendar/xmlutils.py                     | 7 +++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 9a7b30f..2ac8010 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -80,14 +80,14 @@ class RequestStatusValue(Value):
     def writeXML(self, node, namespace):
         # RFC 6321 has the elements directly in the property
         code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
-        code.text = self.mValue[0]
+        code.text = xmlutils.makeText(self.mValue[0])
 
         description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
-        description.text = self.mValue[1]
+        description.text = xmlutils.makeText(self.mValue[1])
 
         if len(self.mValue) == 3 and self.mValue[2]:
             data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
-            data.text = self.mValue[2]
+            data.text = xmlutils.makeText(self.mValue[2])
 
     def parseJSONValue(self, jobject):
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 8b50505..f58d912 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -113,7 +113,7 @@ class Parameter(object):
         for value in self.getValues():
             # TODO: need to figure out proper value types
             text = XML.SubElement(param, xmlutils.makeTag(namespace, xmldefinitions.value_text))
-            text.text = value
+            text.text = xmlutils.makeText(value)
 
     def writeJSON(self, jobject):
         jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
diff --git a/src/pycalendar/plaintextvalue.py b/src/pycalendar/plaintextvalue.py
index f2c22ad..29d2713 100644
--- a/src/pycalendar/plaintextvalue.py
+++ b/src/pycalendar/plaintextvalue.py
@@ -16,6 +16,7 @@
 
 # iCalendar generic text-like value
 
+from pycalendar import xmlutils
 from pycalendar.value import Value
 
 
@@ -41,7 +42,7 @@ class PlainTextValue(Value):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue
+        value.text = xmlutils.makeText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject.encode("utf-8")
diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index de41dcc..947d180 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -21,6 +21,13 @@ def makeTag(namespace, name):
     return "{%s}%s" % (namespace, name.lower(),)
 
 
+def makeText(value):
+    """
+    ElementTree needs unicode, property values and parameters are UTF-8.
+    """
+    return value.decode("utf-8", "replace") if isinstance(value, str) else value
+
+
 def toString(root):
 
     data = """<?xml version="1.0" encoding="utf-8"?>\n"""
-- 
2.43.0


From c28807e28dbd43ed8f700215f7ad9f6961c9f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 068/169] fix: characters outside the BMP made XML that is not
 well-formed

---
 src/pycalendar/xmlutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index 947d180..131ce9b 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -49,6 +49,6 @@ def toString(root):
                 node.getchildren()[-1].tail = "\n" + " " * level * INDENT
 
     _indentNode(root, 0)
-    data += XML.tostring(root) + "\n"
+    data += XML.tostring(root, "utf-8") + "\n"
 
     return data
-- 
2.43.0


From 1d342d61f1e5138b1f09c6a8d5df505870fa1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 069/169] fix: filtered output with sub-components wrote
 nothing or the component itself

Writing with a filter on sub-components called a method that does not exist,
and in XML and JSON a filter taking all sub-components wrote the component
itself again (without end) instead of its sub-components.
---
 src/pycalendar/componentbase.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index d78a1dc..5cb4028 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -410,7 +410,7 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
+            for subcomp in self.sortedComponents():
                 subfilter = filter.getSubComponentFilter(subcomp.getType())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
@@ -427,13 +427,12 @@ class ComponentBase(object):
     def writeComponentsFilteredXML(self, node, namespace, filter):
 
         if self.mComponents:
-            comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
-
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
+                self.writeComponentsXML(node, namespace)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
@@ -450,9 +449,9 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
-- 
2.43.0


From 31fd5e33f051b039b675c0eeff2f83f2ae6779cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 070/169] fix: a filter that leaves out the value of a PHOTO
 wrote the value

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index aa4c0ad..026fe7c 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -273,7 +273,7 @@ class Property(PropertyBase):
     def generateValue(self, os, novalue):
 
         # Special case AB.app PHOTO values
-        if self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
+        if not novalue and self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
             self.setupValueParameter()
 
             # Must write to temp buffer and then wrap
-- 
2.43.0


From c68ec6d88bc79a7174d4a21ff793bbc2b964b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 071/169] fix: the copy of a master component had the original
 as its master

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 0d80c0f..6c4eeea 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -95,7 +95,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
 
-- 
2.43.0


From 2fa67f3dede2dbdeb007740548019238c06e5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 072/169] fix: a copy could have its alarms in another order

Alarms are sorted by a key which was not copied, so a copy got random ones.
---
 src/pycalendar/icalendar/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..14e5f82 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -55,6 +55,8 @@ class Component(ComponentBase):
     def duplicate(self, parent=None, **args):
 
         other = super(Component, self).duplicate(parent=parent, **args)
+        if hasattr(self, "mMapKey"):
+            other.mMapKey = self.mMapKey
         other.mUID = self.mUID
         other.mSeq = self.mSeq
         other.mOriginalSeq = self.mOriginalSeq
-- 
2.43.0


From 9aa4961adc86fb375034b36b843fc9f5e596bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 073/169] fix: an audio alarm without text to speak wrote an
 empty property

isSpeakText() failed for such an alarm.
---
 src/pycalendar/icalendar/valarm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..ee84b66 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -99,14 +99,15 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
-            valarm.addProperty(prop)
+            if self.mSpeakText:
+                prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
+                valarm.addProperty(prop)
 
         def remove(self, valarm):
             valarm.removeProperties(definitions.cICalProperty_ACTION_X_SPEAKTEXT)
 
         def isSpeakText(self):
-            return len(self.mSpeakText) != 0
+            return bool(self.mSpeakText)
 
         def getSpeakText(self):
             return self.mSpeakText
-- 
2.43.0


From 10c4d89334de2a6786436df579ab899d4a466766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 074/169] fix: an edited end before the start was corrected but
 written as it was

---
 src/pycalendar/icalendar/componentrecur.py | 4 ++--
 src/pycalendar/icalendar/vfreebusy.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 6c4eeea..3da49e1 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -545,8 +545,8 @@ class ComponentRecur(Component):
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp:
+            prop = Property(definitions.cICalProperty_DTEND, self.mEnd)
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..ff06d53 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -170,8 +170,8 @@ class VFreeBusy(Component):
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp:
+            prop = Property(definitions.cICalProperty_DTEND, self.mEnd)
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
-- 
2.43.0


From f0a68d556c08bf4137c1f70a402f090e764ad070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 075/169] fix: finalise() kept what removed properties had said

A component from which STATUS, SUMMARY, SEQUENCE, RECURRENCE-ID, DTEND or
REPEAT was removed answered with the old value after finalise(), so a
component made by deriveComponent() from an override was still one.
---
 src/pycalendar/icalendar/component.py      | 3 +--
 src/pycalendar/icalendar/componentrecur.py | 8 +++++---
 src/pycalendar/icalendar/valarm.py         | 4 ++--
 src/pycalendar/icalendar/vevent.py         | 1 +
 src/pycalendar/icalendar/vfreebusy.py      | 2 ++
 src/pycalendar/icalendar/vtodo.py          | 1 +
 6 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 14e5f82..e056196 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -168,8 +168,7 @@ class Component(ComponentBase):
 
         # Get SEQ
         temp = self.loadValueInteger(definitions.cICalProperty_SEQUENCE)
-        if temp is not None:
-            self.mSeq = temp
+        self.mSeq = temp if temp is not None else 0
 
         # Cache the original sequence when the component is read in.
         # This will be used to synchronise changes between two instances of the
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 3da49e1..0977e11 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -261,14 +261,14 @@ class ComponentRecur(Component):
             self.mDuration = False
 
         # Get SUMMARY
-        temp = self.loadValueString(definitions.cICalProperty_SUMMARY)
-        if temp is not None:
-            self.mSummary = temp
+        self.mSummary = self.loadValueString(definitions.cICalProperty_SUMMARY)
 
         # Get RECURRENCE-ID
         self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
         if self.mHasRecurrenceID:
             self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
+        else:
+            self.mRecurrenceID = None
 
         # Update the map key
         if self.mHasRecurrenceID:
@@ -284,6 +284,8 @@ class ComponentRecur(Component):
                 self.mAdjustPrior = False
         else:
             self.mMapKey = self.mapKey(self.mUID)
+            self.mAdjustFuture = False
+            self.mAdjustPrior = False
 
         self._resetRecurrenceSet()
 
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index ee84b66..4ff5b7b 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -448,8 +448,7 @@ class VAlarm(Component):
 
         # Get repeat & interval
         temp = self.loadValueInteger(definitions.cICalProperty_REPEAT)
-        if temp is not None:
-            self.mRepeats = temp
+        self.mRepeats = temp if temp is not None else 0
         temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
         if temp is not None:
             self.mRepeatInterval = temp
@@ -458,6 +457,7 @@ class VAlarm(Component):
         self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
 
         # Alarm status - private to Mulberry
+        self.mAlarmStatus = definitions.eAlarm_Status_Pending
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
         if status is not None:
             if status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING:
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..caede20 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -83,6 +83,7 @@ class VEvent(ComponentRecur):
         # Do inherited
         super(VEvent, self).finalise()
 
+        self.mStatus = definitions.eStatus_VEvent_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index ff06d53..2fec48b 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -85,6 +85,7 @@ class VFreeBusy(Component):
         temp = self.loadValueDateTime(definitions.cICalProperty_DTEND)
         if temp is None:
             # Try DURATION instead
+            self.mHasEnd = False
             temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
             if temp is not None:
                 self.mEnd = self.mStart + temp
@@ -93,6 +94,7 @@ class VFreeBusy(Component):
                 # Force end to start, which will then be fixed to sensible
                 # value later
                 self.mEnd = self.mStart
+                self.mDuration = False
         else:
             self.mHasEnd = True
             self.mDuration = False
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..4806c52 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -243,6 +243,7 @@ class VToDo(ComponentRecur):
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
         # Get STATUS
+        self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
-- 
2.43.0


From 862a397dd1f5878fdbb98261b89b2a44b3f0c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 076/169] fix: editName() of a calendar always failed

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index d4f5ef0..e4cf785 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -107,7 +107,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
-- 
2.43.0


From a68332b847597465bb5b4b5510c64c2ea32f8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 077/169] fix: finalise() of an alarm kept the interval of a
 removed DURATION

---
 src/pycalendar/icalendar/valarm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 4ff5b7b..3cd1bc7 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -452,6 +452,9 @@ class VAlarm(Component):
         temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
         if temp is not None:
             self.mRepeatInterval = temp
+        else:
+            self.mRepeatInterval = Duration()
+            self.mRepeatInterval.setDuration(5 * 60)  # Five minutes
 
         # Set a map key for sorting
         self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
-- 
2.43.0


From 824f1ff1f5ef0b3c48319b3b5922df4d8be5fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 078/169] fix: a recurrence kept its expansion when the start
 moved to another timezone

---
 src/pycalendar/icalendar/recurrence.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3870772..b8e7408 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -855,8 +855,14 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is None:
             self.mRecurrences = []
 
-        # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
+        # Wipe cache if start is different (the same moment in another timezone, or a date
+        # and a time on it, compare as equal but do not recur in the same way)
+        if self.mCached and (
+            start != self.mCacheStart or
+            start.isDateOnly() != self.mCacheStart.isDateOnly() or
+            start.getTimezoneUTC() != self.mCacheStart.getTimezoneUTC() or
+            start.getTimezoneID() != self.mCacheStart.getTimezoneID()
+        ):
             self.mCached = False
             self.mFullyCached = False
 
-- 
2.43.0


From c2b6b2b2323d4a45c161ee011137e4a05be3c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 079/169] fix: a calendar still knew components removed by
 removeAllComponent()

---
 src/pycalendar/componentbase.py      | 3 ++-
 src/pycalendar/icalendar/calendar.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 5cb4028..0bf4088 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -143,7 +143,8 @@ class ComponentBase(object):
                 if component.getType().upper() == compname:
                     self.removeComponent(component)
         else:
-            self.mComponents = []
+            for component in tuple(self.mComponents):
+                self.removeComponent(component)
 
     def sortedComponentNames(self):
         return ()
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index e4cf785..f32a614 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -343,7 +343,9 @@ class Calendar(ContainerBase):
             if rid:
                 self.mOverriddenComponentsByUID[uid].remove(component)
             else:
-                del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
+                masters = self.mMasterComponentsByTypeAndUID[component.getType()]
+                if uid in masters:
+                    del masters[uid]
 
     def deriveComponent(self, recurrenceID):
         """
-- 
2.43.0


From cbc2f8c00594d160320792e937b5a107df1d992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 080/169] fix: setToday(), setNow() and setNowUTC() always
 failed

---
 src/pycalendar/datetime.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index d19758c..aa71664 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,23 @@ class DateTime(ValueMixin):
 
         return other
 
+    def _copyFrom(self, other):
+        self.mYear = other.mYear
+        self.mMonth = other.mMonth
+        self.mDay = other.mDay
+
+        self.mHours = other.mHours
+        self.mMinutes = other.mMinutes
+        self.mSeconds = other.mSeconds
+
+        self.mDateOnly = other.mDateOnly
+
+        self.mTZUTC = other.mTZUTC
+        self.mTZID = other.mTZID
+        self.mTZOffset = other.mTZOffset
+
+        self.changed()
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -666,7 +683,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self._copyFrom(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -679,7 +696,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self._copyFrom(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -688,7 +705,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self._copyFrom(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From 4ff0308c4e67538a3d1299cfda19b77045ffafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 081/169] fix: a to-do edited to have a duration did not know
 that it is due

---
 src/pycalendar/icalendar/vtodo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4806c52..e084992 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -300,6 +300,12 @@ class VToDo(ComponentRecur):
         return fixed, unfixed
 
     # Editing
+    def editTimingStartDuration(self, start, duration):
+        super(VToDo, self).editTimingStartDuration(start, duration)
+
+        # A duration determines when the to-do is due
+        self.mHasEnd = self.hasProperty(definitions.cICalProperty_DURATION)
+
     def editStatus(self, status):
         # Only if it is different
         if self.mStatus != status:
-- 
2.43.0


From ae63e6ffaa77d5e500e049e246c8a251783cdbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 082/169] fix: an all-day free-busy of one day had no length
 when it was read again

---
 src/pycalendar/icalendar/vfreebusy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 2fec48b..9ae26c9 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -91,9 +91,11 @@ class VFreeBusy(Component):
                 self.mEnd = self.mStart + temp
                 self.mDuration = True
             else:
-                # Force end to start, which will then be fixed to sensible
-                # value later
-                self.mEnd = self.mStart
+                # If no end or duration then use the start (bumped by one day for
+                # an all day item)
+                self.mEnd = self.mStart.duplicate()
+                if self.mEnd.isDateOnly():
+                    self.mEnd.offsetDay(1)
                 self.mDuration = False
         else:
             self.mHasEnd = True
-- 
2.43.0


From d297bfce34aaf641aefb0cd510d244c2ae8cb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 083/169] fix: changeUID() forgot overridden components the new
 UID already had

---
 src/pycalendar/icalendar/calendar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index f32a614..04c9af2 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -152,12 +152,12 @@ class Calendar(ContainerBase):
 
         # Maps
         if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
+            overridden = self.mOverriddenComponentsByUID.pop(oldUID)
+            self.mOverriddenComponentsByUID[newUID].extend(overridden)
         for ctype in self.mMasterComponentsByTypeAndUID:
             if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
-                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-                del self.mMasterComponentsByTypeAndUID[ctype][oldUID]
+                master = self.mMasterComponentsByTypeAndUID[ctype].pop(oldUID)
+                self.mMasterComponentsByTypeAndUID[ctype][newUID] = master
 
     def finalise(self):
         # Get calendar name if present
-- 
2.43.0


From 9e728882fbcd185d0482f550820b0befeb24adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 084/169] fix: the order in which alarms are written depended
 on memory addresses

---
 src/pycalendar/icalendar/valarm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 3cd1bc7..f57c668 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -386,6 +386,11 @@ class VAlarm(Component):
     def getInterval(self):
         return self.mRepeatInterval
 
+    def getMapKey(self):
+        # A map key for sorting
+        trigger = self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy
+        return "%s:%s" % (self.mAction, trigger.getText(),)
+
     def added(self):
         # Added to calendar so add to calendar notifier
         # calstore::CCalendarNotifier::sCalendarNotifier.AddAlarm(this)
@@ -456,9 +461,6 @@ class VAlarm(Component):
             self.mRepeatInterval = Duration()
             self.mRepeatInterval.setDuration(5 * 60)  # Five minutes
 
-        # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
-
         # Alarm status - private to Mulberry
         self.mAlarmStatus = definitions.eAlarm_Status_Pending
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
-- 
2.43.0


From e2103e56f2242182341e47f7a35c865a230b11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 085/169] fix: a component fixed by validate() answered what it
 had said before

---
 src/pycalendar/componentbase.py            | 1 +
 src/pycalendar/icalendar/available.py      | 1 +
 src/pycalendar/icalendar/componentrecur.py | 1 +
 src/pycalendar/icalendar/vevent.py         | 1 +
 src/pycalendar/icalendar/vtodo.py          | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 0bf4088..32b7094 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -249,6 +249,7 @@ class ComponentBase(object):
                 logProblem = "[%s] Missing required property: %s" % (self.getType(), propname)
                 if doFix:
                     self.addProperty(self.sPropertyType(propname, ""))
+                    self.finalise()
                     fixed.append(logProblem)
                 else:
                     unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/available.py b/src/pycalendar/icalendar/available.py
index 1b173c8..424cf62 100644
--- a/src/pycalendar/icalendar/available.py
+++ b/src/pycalendar/icalendar/available.py
@@ -72,6 +72,7 @@ class Available(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+                self.finalise()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 0977e11..94f5de3 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -337,6 +337,7 @@ class ComponentRecur(Component):
                         if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:
                             self.removeProperties(propname)
                             self.addProperty(Property(propname, definitions.cICalProperty_STATUS_CANCELLED))
+                            self.finalise()
                             fixed.append(logProblem)
                             break
                     else:
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index caede20..8048431 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -119,6 +119,7 @@ class VEvent(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+                self.finalise()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index e084992..72b3ecd 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -283,6 +283,7 @@ class VToDo(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DURATION)
+                self.finalise()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
-- 
2.43.0


From 206cd43c40a196b34af220aee1c3e68b1690de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 086/169] fix: CALSCALE:gregorian was refused, although its
 case does not matter

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 04c9af2..f623b18 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -645,7 +645,7 @@ class Calendar(ContainerBase):
         elif prop.getName() == definitions.cICalProperty_CALSCALE:
 
             tvalue = prop.getTextValue()
-            if ((tvalue is None) or (tvalue.getValue() != "GREGORIAN")):
+            if ((tvalue is None) or (tvalue.getValue().upper() != "GREGORIAN")):
                 return False
 
         return True
-- 
2.43.0


From 166e4ea6d828db3cf26507b2195a42e96acb3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 087/169] fix: an event with two starts was valid

---
 src/pycalendar/icalendar/vevent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 8048431..03e838f 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -33,6 +33,7 @@ class VEvent(ComponentRecur):
         definitions.cICalProperty_CLASS,
         definitions.cICalProperty_CREATED,
         definitions.cICalProperty_DESCRIPTION,
+        definitions.cICalProperty_DTSTART,
         definitions.cICalProperty_GEO,
         definitions.cICalProperty_LAST_MODIFIED,
         definitions.cICalProperty_LOCATION,
-- 
2.43.0


From 3ac2cb484fa8839fc66a5e351b3ca627d59d9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 088/169] fix: time zones in a calendar read from jCal were not
 used

---
 src/pycalendar/icalendar/calendar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index f623b18..d0f4c76 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -200,6 +200,17 @@ class Calendar(ContainerBase):
 
         return result
 
+    @classmethod
+    def parseJSONData(cls, data):
+
+        result = super(Calendar, cls).parseJSONData(data)
+
+        # As with text, the timezones read are made available to any date object
+        from pycalendar.timezonedb import TimezoneDatabase
+        TimezoneDatabase.mergeTimezones(result, result.getComponents(definitions.cICalComponent_VTIMEZONE))
+
+        return result
+
     def parseComponent(self, ins):
 
         result = None
-- 
2.43.0


From b04feafe597cef23413e11b63aaaae1cdaf39bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 089/169] fix: time zones used only in lists, periods or inner
 components were left out

---
 src/pycalendar/icalendar/component.py     | 24 ++++++++++++++++++-----
 src/pycalendar/icalendar/vavailability.py | 13 ------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index e056196..ecb2f12 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -17,8 +17,11 @@
 from pycalendar import stringutils
 from pycalendar.componentbase import ComponentBase
 from pycalendar.datetime import DateTime
+from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.icalendar import definitions
 from pycalendar.icalendar.property import Property
+from pycalendar.multivalue import MultiValue
+from pycalendar.periodvalue import PeriodValue
 import os
 import time
 import uuid
@@ -182,11 +185,22 @@ class Component(ComponentBase):
         # Look for all date-time properties
         for props in self.mProperties.itervalues():
             for prop in props:
-                # Try to get a date-time value from the property
-                dtv = prop.getDateTimeValue()
-                if dtv is not None:
+                # Each of the values when there are several
+                value = prop.getValue()
+                for v in value.getValues() if isinstance(value, MultiValue) else (value,):
+                    if isinstance(v, DateTimeValue):
+                        dts = (v.getValue(),)
+                    elif isinstance(v, PeriodValue):
+                        dts = (v.getValue().getStart(), v.getValue().getEnd())
+                    else:
+                        continue
                     # Add timezone id if appropriate
-                    if dtv.getValue().getTimezoneID():
-                        tzids.add(dtv.getValue().getTimezoneID())
+                    for dt in dts:
+                        if dt.getTimezoneID():
+                            tzids.add(dt.getTimezoneID())
+
+        # Look in all components inside this one
+        for comp in self.mComponents:
+            comp.getTimezones(tzids)
 
 Component.sComponentType = Component
diff --git a/src/pycalendar/icalendar/vavailability.py b/src/pycalendar/icalendar/vavailability.py
index 0f386f6..589a56c 100644
--- a/src/pycalendar/icalendar/vavailability.py
+++ b/src/pycalendar/icalendar/vavailability.py
@@ -100,17 +100,4 @@ class VAvailability(Component):
             definitions.cICalProperty_DTEND,
         )
 
-    def getTimezones(self, tzids):
-        """
-        In addition to looking in the VAVAILABILITY component, we must also return any TZIDs used
-        in AVAILABLE child components.
-
-        @param tzids: result to report back
-        @type tzids: L{set}
-        """
-
-        super(VAvailability, self).getTimezones(tzids)
-        for available in self.getComponents(definitions.cICalComponent_AVAILABLE):
-            available.getTimezones(tzids)
-
 Component.registerComponent(definitions.cICalComponent_VAVAILABILITY, VAvailability)
-- 
2.43.0


From 63a1c13babf795160e017c6bb77a78f21fdeccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 090/169] fix: the time zone of a single period was ignored

---
 src/pycalendar/icalendar/property.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 0cf3833..8781723 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -269,18 +269,14 @@ class Property(PropertyBase):
         if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
-            if isinstance(self.mValue, DateTimeValue):
-                self.mValue.getValue().setTimezoneID(tzid)
-
-            elif isinstance(self.mValue, MultiValue):
-                for item in self.mValue.getValues():
-                    if isinstance(item, DateTimeValue):
-                        item.getValue().setTimezoneID(tzid)
-                    elif isinstance(item, PeriodValue):
-                        period = item.getValue()
-                        for dt in (period.getStart(),) if period.getUseDuration() else (period.getStart(), period.getEnd()):
-                            if dt.floating():
-                                dt.setTimezoneID(tzid)
+            for item in self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,):
+                if isinstance(item, DateTimeValue):
+                    item.getValue().setTimezoneID(tzid)
+                elif isinstance(item, PeriodValue):
+                    period = item.getValue()
+                    for dt in (period.getStart(),) if period.getUseDuration() else (period.getStart(), period.getEnd()):
+                        if dt.floating():
+                            dt.setTimezoneID(tzid)
 
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
-- 
2.43.0


From 0cf261492a0f7a1d0de16caa7e3699b8e03fef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 091/169] fix: an instance derived from a to-do or journal, or
 from what has no end, got a DTEND

---
 src/pycalendar/icalendar/calendar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index d0f4c76..1bb8536 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -389,8 +389,6 @@ class Calendar(ContainerBase):
         # New DTSTART is the RECURRENCE-ID we are deriving but adjusted to the
         # original DTSTART's localtime
         dtstart = newcomp.getStart()
-        dtend = newcomp.getEnd()
-        oldduration = dtend - dtstart
 
         newdtstartValue = recurrenceID.duplicate()
         if not dtstart.isDateOnly():
@@ -400,12 +398,16 @@ class Calendar(ContainerBase):
             newdtstartValue.setDateOnly(True)
 
         newcomp.removeProperties(definitions.cICalProperty_DTSTART)
-        newcomp.removeProperties(definitions.cICalProperty_DTEND)
         prop = Property(definitions.cICalProperty_DTSTART, newdtstartValue)
         newcomp.addProperty(prop)
-        if not newcomp.useDuration():
-            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
-            newcomp.addProperty(prop)
+
+        # The end, if there is one, is moved with the start
+        for propname in (definitions.cICalProperty_DTEND, definitions.cICalProperty_DUE,):
+            dtend = newcomp.loadValueDateTime(propname)
+            if dtend is not None:
+                newcomp.removeProperties(propname)
+                prop = Property(propname, newdtstartValue + (dtend - dtstart))
+                newcomp.addProperty(prop)
 
         newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
 
-- 
2.43.0


From 25e0db96352a2f83bf6e5513b967627bf8377cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 092/169] fix: an instance derived from a UTC one kept the zone
 of the date given

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 1bb8536..fe36364 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -392,7 +392,7 @@ class Calendar(ContainerBase):
 
         newdtstartValue = recurrenceID.duplicate()
         if not dtstart.isDateOnly():
-            if dtstart.local():
+            if not dtstart.floating():
                 newdtstartValue.adjustTimezone(dtstart.getTimezone())
         else:
             newdtstartValue.setDateOnly(True)
-- 
2.43.0


From 7ee9f73122f9d85d676397d1ee47bc70da03cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 093/169] fix: adding a duration to a time in a zone ignored
 daylight changes

---
 src/pycalendar/datetime.py | 32 ++++++++++++++++++++++++--------
 src/pycalendar/duration.py | 10 +++++++---
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index aa71664..9ac483e 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -137,10 +137,28 @@ class DateTime(ValueMixin):
 
     # Operators
     def __add__(self, duration):
-        # Add duration seconds to temp object and normalise it
+        return self._addDuration(duration, 1)
+
+    def _addDuration(self, duration, sign):
+        """
+        Weeks and days are counted on the calendar, the rest is exact.
+        """
+        if not duration.getForward():
+            sign = -sign
+        days = duration.getWeeks() * 7 + duration.getDays()
+        seconds = (duration.getHours() * 60 + duration.getMinutes()) * 60 + duration.getSeconds()
+
         result = self.duplicate()
-        result.mSeconds += duration.getTotalSeconds()
+        result.mDay += sign * days
         result.normalise()
+        if seconds != 0:
+            exact = result.local() and not result.isDateOnly()
+            if exact:
+                result.adjustToUTC()
+            result.mSeconds += sign * seconds
+            result.normalise()
+            if exact:
+                result.adjustTimezone(self.getTimezone())
         return result
 
     def __sub__(self, dateorduration):
@@ -174,15 +192,13 @@ class DateTime(ValueMixin):
             else:
                 # Do diff of date-time in seconds
                 diff = self.getPosixTime() - date.getPosixTime()
-                return Duration(duration=diff)
+                result = Duration()
+                result.setDuration(diff, exact=self.local() or date.local())
+                return result
 
         elif isinstance(dateorduration, Duration):
 
-            duration = dateorduration
-            result = self.duplicate()
-            result.mSeconds -= duration.getTotalSeconds()
-            result.normalise()
-            return result
+            return self._addDuration(dateorduration, -1)
 
         raise ValueError("DateTime: cannot subtract: {}".format(dateorduration))
 
diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index d3e1f15..2d7b805 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -73,7 +73,11 @@ class Duration(ValueMixin):
         return [1, -1][not self.mForward] \
             * (self.mSeconds + (self.mMinutes + (self.mHours + (self.mDays + (self.mWeeks * 7)) * 24) * 60) * 60)
 
-    def setDuration(self, seconds):
+    def setDuration(self, seconds, exact=False):
+        """
+        @param exact: use no weeks or days, whose length depends on where they are used
+        @type exact: L{bool}
+        """
         self.mForward = seconds >= 0
 
         remainder = seconds
@@ -82,7 +86,7 @@ class Duration(ValueMixin):
 
         # Is it an exact number of weeks - if so use the weeks value, otherwise
         # days, hours, minutes, seconds
-        if remainder % (7 * 24 * 60 * 60) == 0:
+        if remainder % (7 * 24 * 60 * 60) == 0 and not exact:
             self.mWeeks = remainder / (7 * 24 * 60 * 60)
             self.mDays = 0
 
@@ -98,7 +102,7 @@ class Duration(ValueMixin):
             remainder -= self.mMinutes
             remainder /= 60
 
-            self.mHours = remainder % 24
+            self.mHours = remainder if exact else remainder % 24
             remainder -= self.mHours
 
             self.mDays = remainder / 24
-- 
2.43.0


From 85b8840efc6f09aa2f9788ef21f4643dbfaad971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 094/169] fix: instances lasting over a daylight change ended
 at another time than given

---
 src/pycalendar/icalendar/componentexpanded.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index cb4dbeb..9335f54 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -15,6 +15,7 @@
 ##
 
 from pycalendar.datetime import DateTime
+from pycalendar.icalendar import definitions
 
 
 class ComponentExpanded(object):
@@ -115,7 +116,7 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid
 
             # End is based on original events settings (which may have been given as a duration)
-            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
+            self.mInstanceEnd = self.mInstanceStart + self.ownerDuration()
 
             self.mRecurring = True
 
@@ -136,6 +137,11 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid + (self.mOwner.getStart() - self.mOwner.getRecurrenceID())
 
             # End is based on duration of owner
-            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
+            self.mInstanceEnd = self.mInstanceStart + self.ownerDuration()
 
             self.mRecurring = True
+
+    def ownerDuration(self):
+        # Days in a given duration depend on where they are counted, so it is used as it is
+        duration = self.mOwner.loadValueDuration(definitions.cICalProperty_DURATION) if self.mOwner.useDuration() else None
+        return duration if duration is not None else self.mOwner.getEnd() - self.mOwner.getStart()
-- 
2.43.0


From ca8ad6d3558cc69c907edaa8c4562be316638b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 095/169] fix: what a RANGE moved over a daylight change was
 shown at another time of day

---
 src/pycalendar/icalendar/componentexpanded.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 9335f54..f52e090 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -16,6 +16,7 @@
 
 from pycalendar.datetime import DateTime
 from pycalendar.icalendar import definitions
+from pycalendar.timezone import Timezone
 
 
 class ComponentExpanded(object):
@@ -133,14 +134,28 @@ class ComponentExpanded(object):
         else:
             # We need to use the rid as the starting point, but adjust it by
             # the offset between the slave's
-            # rid and its start
-            self.mInstanceStart = rid + (self.mOwner.getStart() - self.mOwner.getRecurrenceID())
+            # rid and its start, which is one of local time
+            timezone = self.mOwner.getStart().getTimezone()
+            start, ownerRID, self.mInstanceStart = [self.localTime(dt, timezone) for dt in (self.mOwner.getStart(), self.mOwner.getRecurrenceID(), rid)]
+            self.mInstanceStart += start - ownerRID
+            if not start.isDateOnly():
+                self.mInstanceStart.setTimezone(timezone)
 
             # End is based on duration of owner
             self.mInstanceEnd = self.mInstanceStart + self.ownerDuration()
 
             self.mRecurring = True
 
+    @staticmethod
+    def localTime(dt, timezone):
+        # The time on the clocks of a timezone, without the timezone
+        local = dt.duplicate()
+        if not dt.isDateOnly():
+            if not dt.floating() and (timezone.getUTC() or timezone.getTimezoneID()):
+                local.adjustTimezone(timezone)
+            local.setTimezone(Timezone(utc=False))
+        return local
+
     def ownerDuration(self):
         # Days in a given duration depend on where they are counted, so it is used as it is
         duration = self.mOwner.loadValueDuration(definitions.cICalProperty_DURATION) if self.mOwner.useDuration() else None
-- 
2.43.0


From 13a935fa341000299fa2bfedc94954ef7c720f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 096/169] fix: what a RANGE moved was shown by where it was
 moved from

---
 src/pycalendar/icalendar/componentrecur.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 94f5de3..cb23f44 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -20,6 +20,7 @@ from pycalendar.icalendar.component import Component
 from pycalendar.icalendar.componentexpanded import ComponentExpanded
 from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.recurrenceset import RecurrenceSet
+from pycalendar.period import Period
 from pycalendar.timezone import Timezone
 from pycalendar.utils import set_difference
 import uuid
@@ -429,8 +430,19 @@ class ComponentRecur(Component):
                         prior.sort(key=lambda x: x.getRecurrenceID())
                         future.sort(key=lambda x: x.getRecurrenceID())
 
+                        # Items outside of the range may be moved into it
+                        moves = [iter.getStart() - iter.getRecurrenceID() for iter in prior + future]
+                        start = min([period.getStart() - move for move in moves])
+                        end = max([period.getEnd() - move for move in moves])
+                        start.offsetDay(-1)
+                        end.offsetDay(1)
+                        wider = []
+                        self.mRecurrences.expand(self.mStart, Period(min(start, period.getStart()), max(end, period.getEnd())), wider)
+                        wider = set_difference(wider, recurs)
+                        items = set(items)
+
                         # Add each expanded item
-                        for iter1 in items:
+                        for iter1 in wider:
 
                             # Now step through each using the slave item
                             # instead of the master as appropriate
@@ -449,8 +461,12 @@ class ComponentRecur(Component):
                                     break
 
                             if slave is None:
-                                slave = self
-                            results.append(self.createExpanded(slave, iter1))
+                                if iter1 in items:
+                                    results.append(self.createExpanded(self, iter1))
+                            else:
+                                expanded = self.createExpanded(slave, iter1)
+                                if period.isDateWithinPeriod(expanded.getInstanceStart()):
+                                    results.append(expanded)
                 else:
                     # Add each expanded item
                     for iter in items:
-- 
2.43.0


From cba66e4ac0db9d7a74a50b7c9a49f73b607b3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 097/169] fix: asking an alarm when it triggers, or telling it
 that it did, failed

---
 src/pycalendar/icalendar/valarm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index f57c668..4a144f7 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -594,7 +594,7 @@ class VAlarm(Component):
     def getNextTrigger(self, dt):
         if not self.mStatusInit:
             self.initNextTrigger()
-        dt.copy(self.mNextTrigger)
+        dt._copyFrom(self.mNextTrigger)
 
     def alarmTriggered(self, dt):
         # Remove existing
@@ -602,11 +602,11 @@ class VAlarm(Component):
         self.removeProperties(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
 
         # Updated cached values
-        self.mLastTrigger.copy(dt)
+        self.mLastTrigger = dt.duplicate()
 
         if self.mDoneCount < self.mRepeats:
             self.mNextTrigger = self.mLastTrigger + self.mRepeatInterval
-            dt.copy(self.mNextTrigger)
+            dt._copyFrom(self.mNextTrigger)
             self.mDoneCount += 1
             self.mAlarmStatus = definitions.eAlarm_Status_Pending
         else:
@@ -671,15 +671,15 @@ class VAlarm(Component):
         # If absolute trigger, use that
         if self.isTriggerAbsolute():
             # Get the trigger on
-            dt.copy(self.getTriggerOn())
+            dt._copyFrom(self.getTriggerOn())
         else:
-            # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            # Get the component this is in (must be ComponentRecur type)
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
 
                 # Offset by duration
-                dt.copy(trigger + self.getTriggerDuration())
+                dt._copyFrom(trigger + self.getTriggerDuration())
 
 Component.registerComponent(definitions.cICalComponent_VALARM, VAlarm)
-- 
2.43.0


From 1d56eab27bb34bccfaecdfdb93d481a56835a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 098/169] fix: an alarm that triggered recorded the next time
 instead of that

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 4a144f7..83e86a2 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -613,7 +613,7 @@ class VAlarm(Component):
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, self.mLastTrigger.duplicate()))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
-- 
2.43.0


From 62592909344df0e357d85f720d5ac1cf920888a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 099/169] fix: alarms of all-day components could trigger only
 at midnight

---
 src/pycalendar/icalendar/valarm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 83e86a2..e361273 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -679,6 +679,12 @@ class VAlarm(Component):
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
 
+                # A date is the start of that day
+                if trigger.isDateOnly():
+                    trigger = trigger.duplicate()
+                    trigger.setDateOnly(False)
+                    trigger.setHHMMSS(0, 0, 0)
+
                 # Offset by duration
                 dt._copyFrom(trigger + self.getTriggerDuration())
 
-- 
2.43.0


From 6bc7336dfbfb1a1999686a8a9f3a955108d3a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 100/169] fix: an alarm kept its next trigger and status when
 it was edited or time passed

---
 src/pycalendar/icalendar/valarm.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e361273..01d26f6 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -462,6 +462,16 @@ class VAlarm(Component):
             self.mRepeatInterval.setDuration(5 * 60)  # Five minutes
 
         # Alarm status - private to Mulberry
+        self.loadAlarmStatus()
+
+        # Last trigger time - private to Mulberry
+        temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
+        self.mLastTrigger = temp if temp is not None else DateTime()
+
+        # What comes next depends on all of these
+        self.mStatusInit = False
+
+    def loadAlarmStatus(self):
         self.mAlarmStatus = definitions.eAlarm_Status_Pending
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
         if status is not None:
@@ -474,11 +484,6 @@ class VAlarm(Component):
             else:
                 self.mAlarmStatus = definitions.eAlarm_Status_Pending
 
-        # Last trigger time - private to Mulberry
-        temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
-        if temp is not None:
-            self.mLastTrigger = temp
-
     def validate(self, doFix=False):
         """
         Validate the data in this component and optionally fix any problems, else raise. If
@@ -592,11 +597,15 @@ class VAlarm(Component):
         return self.mAlarmStatus
 
     def getNextTrigger(self, dt):
-        if not self.mStatusInit:
-            self.initNextTrigger()
+        # This depends on the current time, the component this is in, and on any edits
+        self.initNextTrigger()
         dt._copyFrom(self.mNextTrigger)
 
     def alarmTriggered(self, dt):
+        # Need to know which one this is
+        if not self.mStatusInit:
+            self.initNextTrigger()
+
         # Remove existing
         self.removeProperties(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
         self.removeProperties(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
@@ -634,6 +643,7 @@ class VAlarm(Component):
 
     def initNextTrigger(self):
         # Do not bother if its completed
+        self.loadAlarmStatus()
         if self.mAlarmStatus == definitions.eAlarm_Status_Completed:
             return
         self.mStatusInit = True
-- 
2.43.0


From 16357eb96c19aa360c221108cb0e7b5c1398e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 101/169] fix: recurring instances that began before a range
 and last into it were left out

---
 src/pycalendar/icalendar/componentrecur.py | 122 ++++++++-------------
 1 file changed, 48 insertions(+), 74 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index cb23f44..2a529ac 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -391,86 +391,60 @@ class ComponentRecur(Component):
     def expandPeriod(self, period, results):
         # Check for recurrence and True master
         if ((self.mRecurrences is not None) and self.mRecurrences.hasRecurrence() and not self.isRecurrenceInstance()):
-            # Expand recurrences within the range
-            items = []
-            self.mRecurrences.expand(self.mStart, period, items)
-
             # Look for overridden recurrence items
             cal = self.mParentComponent
             if cal is not None:
+                # Get list of each ones with RANGE
+                instances = []
+                cal.getRecurrenceInstancesItems(definitions.cICalComponent_VEVENT, self.getUID(), instances)
+                prior = [iter for iter in instances if iter.isAdjustPrior()]
+                future = [iter for iter in instances if iter.isAdjustFuture()]
+                prior.sort(key=lambda x: x.getRecurrenceID())
+                future.sort(key=lambda x: x.getRecurrenceID())
+
+                # Expand recurrences within the range, and around it as instances outside may last or be
+                # moved into it (with a day to spare for the lengths of days and offsets of timezones)
+                starts = [period.getStart() - (self.mEnd - self.mStart)]
+                ends = [period.getEnd().duplicate()]
+                for iter in prior + future:
+                    starts.append(period.getStart() - (iter.getEnd() - iter.getRecurrenceID()))
+                    ends.append(period.getEnd() - (iter.getStart() - iter.getRecurrenceID()))
+                wider = Period(min(starts), max(ends))
+                wider.getStart().offsetDay(-1)
+                wider.getEnd().offsetDay(1)
+                items = []
+                self.mRecurrences.expand(self.mStart, wider, items)
+
                 # Remove recurrence instances from the list of items
                 recurs = []
                 cal.getRecurrenceInstancesIds(definitions.cICalComponent_VEVENT, self.getUID(), recurs)
-                recurs.sort()
-                if len(recurs) != 0:
-                    temp = []
-                    temp = set_difference(items, recurs)
-                    items = temp
-
-                    # Now get actual instances
-                    instances = []
-                    cal.getRecurrenceInstancesItems(definitions.cICalComponent_VEVENT, self.getUID(), instances)
-
-                    # Get list of each ones with RANGE
-                    prior = []
-                    future = []
-                    for iter in instances:
-                        if iter.isAdjustPrior():
-                            prior.append(iter)
-                        if iter.isAdjustFuture():
-                            future.append(iter)
-
-                    # Check for special behaviour
-                    if len(prior) + len(future) == 0:
-                        # Add each expanded item
-                        for iter in items:
-                            results.append(self.createExpanded(self, iter))
-                    else:
-                        # Sort each list first
-                        prior.sort(key=lambda x: x.getRecurrenceID())
-                        future.sort(key=lambda x: x.getRecurrenceID())
-
-                        # Items outside of the range may be moved into it
-                        moves = [iter.getStart() - iter.getRecurrenceID() for iter in prior + future]
-                        start = min([period.getStart() - move for move in moves])
-                        end = max([period.getEnd() - move for move in moves])
-                        start.offsetDay(-1)
-                        end.offsetDay(1)
-                        wider = []
-                        self.mRecurrences.expand(self.mStart, Period(min(start, period.getStart()), max(end, period.getEnd())), wider)
-                        wider = set_difference(wider, recurs)
-                        items = set(items)
-
-                        # Add each expanded item
-                        for iter1 in wider:
-
-                            # Now step through each using the slave item
-                            # instead of the master as appropriate
-                            slave = None
-
-                            # Find most appropriate THISANDPRIOR item
-                            for riter2 in prior:
-                                if riter2.getRecurrenceID() > iter1:
-                                    slave = riter2
-                                    break
-
-                            # Find most appropriate THISANDFUTURE item
-                            for riter2 in reversed(future):
-                                if riter2.getRecurrenceID() < iter1:
-                                    slave = riter2
-                                    break
-
-                            if slave is None:
-                                if iter1 in items:
-                                    results.append(self.createExpanded(self, iter1))
-                            else:
-                                expanded = self.createExpanded(slave, iter1)
-                                if period.isDateWithinPeriod(expanded.getInstanceStart()):
-                                    results.append(expanded)
-                else:
-                    # Add each expanded item
-                    for iter in items:
-                        results.append(self.createExpanded(self, iter))
+                items = set_difference(items, recurs)
+
+                # Add each expanded item
+                for iter1 in items:
+
+                    # Now step through each using the slave item
+                    # instead of the master as appropriate
+                    slave = None
+
+                    # Find most appropriate THISANDPRIOR item
+                    for riter2 in prior:
+                        if riter2.getRecurrenceID() > iter1:
+                            slave = riter2
+                            break
+
+                    # Find most appropriate THISANDFUTURE item
+                    for riter2 in reversed(future):
+                        if riter2.getRecurrenceID() < iter1:
+                            slave = riter2
+                            break
+
+                    if slave is None:
+                        slave = self
+                    expanded = self.createExpanded(slave, iter1)
+                    start = expanded.getInstanceStart()
+                    if start < period.getEnd() and (start >= period.getStart() or expanded.getInstanceEnd() > period.getStart()):
+                        results.append(expanded)
 
         elif self.withinPeriod(period):
             if self.isRecurrenceInstance():
-- 
2.43.0


From b313049084be8e4f2f0dd6cbc2d1864eba1644f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 102/169] fix: asking a calendar when it is busy failed

---
 src/pycalendar/icalendar/calendar.py  | 10 +++++-----
 src/pycalendar/icalendar/freebusy.py  |  3 ++-
 src/pycalendar/icalendar/vfreebusy.py |  2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index fe36364..eaccd56 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -526,7 +526,7 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
@@ -597,8 +597,8 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = comp.getOwner().loadValueString(definitions.cICalProperty_TRANSP)
+            if transp is not None and (transp.upper() == definitions.cICalProperty_TRANSPARENT):
                 continue
 
             # Add free busy item to list
@@ -614,13 +614,13 @@ class Calendar(ContainerBase):
 
         # Now get the VFREEBUSY info
         list2 = []
-        self.getVFreeBusy(period, list2)
+        self.getVFreeBusyList(period, list2)
 
         # Get start/end list for each free-busy
         for comp in list2:
 
             # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
+            comp.expandPeriodFB(period, fb)
 
         # Add remaining period as property
         FreeBusy.resolveOverlaps(fb)
diff --git a/src/pycalendar/icalendar/freebusy.py b/src/pycalendar/icalendar/freebusy.py
index 0480cb4..a1aadf1 100644
--- a/src/pycalendar/icalendar/freebusy.py
+++ b/src/pycalendar/icalendar/freebusy.py
@@ -45,6 +45,7 @@ class FreeBusy(object):
     def isPeriodOverlap(self, period):
         return self.mPeriod.isPeriodOverlap(period)
 
-    def resolveOverlaps(self, fb):
+    @staticmethod
+    def resolveOverlaps(fb):
         # TODO:
         pass
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 9ae26c9..f6afb8a 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -220,7 +220,7 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                list.append(fb.duplicate())
 
     def cacheBusyTime(self):
 
-- 
2.43.0


From 65647e857884f93e2e798ddccb764c6901f97a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 103/169] fix: events after a tentative one were left out of
 the busy time

---
 src/pycalendar/icalendar/calendar.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index eaccd56..3a1585d 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -607,7 +607,6 @@ class Calendar(ContainerBase):
                 fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
             elif status == definitions.eStatus_VEvent_Tentative:
                 fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
             elif status == definitions.eStatus_VEvent_Cancelled:
                 # Cancelled => does not contribute to busy time
                 pass
-- 
2.43.0


From 2e85289e9e14a17118a1551af3977ee475ef79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 104/169] fix: putting the busy time of a calendar into a
 free-busy component failed

---
 src/pycalendar/icalendar/calendar.py | 70 ++++++++++++++--------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 3a1585d..afa2656 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -530,58 +530,56 @@ class Calendar(ContainerBase):
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
-        # TODO: fix this
-        # list = ExpandedComponents()
-        self.getVEvents(period, list)
-        if len(list) == 0:
-            return
+        list = []
+        self.getVEvents(period, list, all_day_at_top=False)
 
-        # Get start/end list for each non-all-day expanded components
-        dtstart = []
-        dtend = []
-        for dt in list:
+        # Get period for each non-all-day expanded component
+        periods = []
+        for comp in list:
 
             # Ignore if all-day
-            if dt.getInstanceStart().isDateOnly():
+            if comp.getInstanceStart().isDateOnly():
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if dt.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = comp.getOwner().loadValueString(definitions.cICalProperty_TRANSP)
+            if transp is not None and (transp.upper() == definitions.cICalProperty_TRANSPARENT):
                 continue
 
-            # Add start/end to list
-            dtstart.append(dt.getInstanceStart())
-            dtend.append(dt.getInstanceEnd())
+            # Cancelled => does not contribute to busy time
+            if comp.getMaster().getStatus() == definitions.eStatus_VEvent_Cancelled:
+                continue
 
-        # No longer need the expanded items
-        list.clear()
+            # Add start/end to list, floating ones being in the timezone of the period
+            item = Period(comp.getInstanceStart().duplicate(), comp.getInstanceEnd().duplicate())
+            for dt in (item.getStart(), item.getEnd()):
+                if dt.floating():
+                    dt.setTimezone(period.getStart().getTimezone())
+            item.adjustToUTC()
+            if item.getStart() < item.getEnd():
+                periods.append(item)
+        periods.sort()
 
         # Create non-overlapping periods as properties in the freebusy component
-        temp = Period(dtstart.front(), dtend.front())
-        dtstart_iter = dtstart.iter()
-        dtstart_iter.next()
-        dtend_iter = dtend.iter()
-        dtend_iter.next()
-        for _ignore in (None,):
-
-            # Check for non-overlap
-            if dtstart_iter > temp.getEnd():
-
-                # Current period is complete
-                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
-
-                # Reset period to new range
-                temp = Period(dtstart_iter, dtend_iter)
+        temp = None
+        for item in periods:
 
             # They overlap - check for extended end
-            if dtend_iter > temp.getEnd():
+            if temp is not None and item.getStart() <= temp.getEnd():
+                if item.getEnd() > temp.getEnd():
+                    temp = Period(temp.getStart(), item.getEnd())
+                continue
+
+            # Current period is complete
+            if temp is not None:
+                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, [temp]))
 
-                # Extend the end
-                temp = Period(temp.getStart(), dtend_iter)
+            # Reset period to new range
+            temp = item
 
         # Add remaining period as property
-        fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+        if temp is not None:
+            fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, [temp]))
 
     def getFreeBusy(self, period, fb):
         # First create expanded set
-- 
2.43.0


From cd4eb13ce47c5daa071b27c8e957b6dfa3730026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 105/169] fix: a free-busy component gave the busy time it had
 when it was first asked

---
 src/pycalendar/icalendar/vfreebusy.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index f6afb8a..fc5c4d7 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -50,7 +50,6 @@ class VFreeBusy(Component):
         self.mEnd = DateTime()
         self.mHasEnd = False
         self.mDuration = False
-        self.mCachedBusyTime = False
         self.mSpanPeriod = None
         self.mBusyTime = None
 
@@ -61,7 +60,7 @@ class VFreeBusy(Component):
         other.mEnd = self.mEnd.duplicate()
         other.mHasEnd = self.mHasEnd
         other.mDuration = self.mDuration
-        other.mCachedBusyTime = False
+        other.mSpanPeriod = None
         other.mBusyTime = None
         return other
 
@@ -136,9 +135,11 @@ class VFreeBusy(Component):
         return self.mDuration
 
     def getSpanPeriod(self):
+        self.cacheBusyTime()
         return self.mSpanPeriod
 
     def getBusyTime(self):
+        self.cacheBusyTime()
         return self.mBusyTime
 
     def editTiming(self):
@@ -204,18 +205,16 @@ class VFreeBusy(Component):
 
     # Generating info
     def expandPeriodComp(self, period, list):
-        # Cache the busy-time details if not done already
-        if not self.mCachedBusyTime:
-            self.cacheBusyTime()
+        # Get the busy-time details
+        self.cacheBusyTime()
 
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             list.append(self)
 
     def expandPeriodFB(self, period, list):
-        # Cache the busy-time details if not done already
-        if not self.mCachedBusyTime:
-            self.cacheBusyTime()
+        # Get the busy-time details
+        self.cacheBusyTime()
 
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
@@ -224,7 +223,8 @@ class VFreeBusy(Component):
 
     def cacheBusyTime(self):
 
-        # Clear out any existing cache
+        # Clear out any existing cache (properties may have changed since)
+        self.mSpanPeriod = None
         self.mBusyTime = []
 
         # Get all FREEBUSY items and add those that are BUSY
@@ -320,8 +320,6 @@ class VFreeBusy(Component):
 
             self.mSpanPeriod = Period(start, end)
 
-        self.mCachedBusyTime = True
-
     def sortedPropertyKeyOrder(self):
         return (
             definitions.cICalProperty_UID,
-- 
2.43.0


From cd34ae08ca3fb082859a56c8951f7cec991ed44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 106/169] fix: FREEBUSY of an unknown FBTYPE was taken as free

---
 src/pycalendar/icalendar/vfreebusy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index fc5c4d7..44e7113 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -255,11 +255,17 @@ class VFreeBusy(Component):
                     is_busy = True
                     type = FreeBusy.BUSYTENTATIVE
 
-                else:
+                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:
 
                     is_busy = False
                     type = FreeBusy.FREE
 
+                else:
+
+                    # Those not known are the same as busy
+                    is_busy = True
+                    type = FreeBusy.BUSY
+
             else:
 
                 # Default is busy when no parameter
-- 
2.43.0


From 54f4e1dd2b5cd2a9db10e8b519b6bcebf1420bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 107/169] fix: FREEBUSY given a single period was not counted
 as busy

---
 src/pycalendar/icalendar/vfreebusy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 44e7113..ae3451a 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -276,9 +276,10 @@ class VFreeBusy(Component):
             if is_busy:
 
                 multi = iter.getMultiValue()
-                if (multi is not None) and (multi.getType() == Value.VALUETYPE_PERIOD):
+                single = iter.getPeriodValue()
+                if single is not None or ((multi is not None) and (multi.getType() == Value.VALUETYPE_PERIOD)):
 
-                    for o in multi.getValues():
+                    for o in multi.getValues() if single is None else (single,):
 
                         # Double-check type
                         period = None
-- 
2.43.0


From 8818012698a13df6644fc448d13fae1778b46008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 108/169] fix: sorting to-dos for display failed

---
 src/pycalendar/icalendar/vtodo.py | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 72b3ecd..fed268c 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -38,27 +38,29 @@ class VToDo(ComponentRecur):
         s2 = e2.getMaster()
 
         # Check status first (convert None -> Needs action for tests)
-        status1 = s1.self.mStatus
-        status2 = s2.self.mStatus
+        status1 = s1.mStatus
+        status2 = s2.mStatus
         if status1 == definitions.eStatus_VToDo_None:
             status1 = definitions.eStatus_VToDo_NeedsAction
         if status2 == definitions.eStatus_VToDo_None:
             status2 = definitions.eStatus_VToDo_NeedsAction
         if status1 != status2:
             # More important ones at the top
-            return status1 < status2
+            return cmp(status1, status2)
 
         # At this point the status of each is the same
 
         # If status is cancelled sort by start time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Cancelled:
+        if status1 == definitions.eStatus_VToDo_Cancelled:
             # Older ones at the bottom
-            return s1.mStart > s2.mStart
+            return s2.mStart.compareDateTime(s1.mStart)
 
         # If status is completed sort by completion time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Completed:
-            # Older ones at the bottom
-            return s1.self.mCompleted > s2.self.mCompleted
+        if status1 == definitions.eStatus_VToDo_Completed:
+            # Those without one, then older ones, at the bottom
+            if not s1.mHasCompleted or not s2.mHasCompleted:
+                return cmp(s2.mHasCompleted, s1.mHasCompleted)
+            return s2.mCompleted.compareDateTime(s1.mCompleted)
 
         # Check due date exists
         if s1.mHasEnd != s2.mHasEnd:
@@ -67,23 +69,23 @@ class VToDo(ComponentRecur):
 
             # Ones with due dates after today below ones without due dates
             if s1.hasEnd():
-                return s1.mEnd <= now
-            elif s2.hasEnd():
-                return now < s2.mEnd
+                return -1 if s1.mEnd <= now else 1
+            else:
+                return -1 if now < s2.mEnd else 1
 
         # Check due dates if present
         if s1.mHasEnd:
             if s1.mEnd != s2.mEnd:
                 # Soonest dues dates above later ones
-                return s1.mEnd < s2.mEnd
+                return s1.mEnd.compareDateTime(s2.mEnd)
 
         # Check priority next
-        if s1.self.mPriority != s2.self.mPriority:
+        if s1.mPriority != s2.mPriority:
             # Higher priority above lower ones
-            return s1.self.mPriority < s2.self.mPriority
+            return cmp(s1.mPriority, s2.mPriority)
 
         # Just use start time - older ones at the top
-        return s1.mStart < s2.mStart
+        return s1.mStart.compareDateTime(s2.mStart)
 
     propertyCardinality_1 = (
         definitions.cICalProperty_DTSTAMP,
-- 
2.43.0


From 8975710d21510915c3e376f1312f4d47a911b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 109/169] fix: the text for the status of a to-do failed

---
 src/pycalendar/icalendar/vtodo.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index fed268c..544de57 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -153,18 +153,18 @@ class VToDo(ComponentRecur):
         self.mStatus = status
 
     def getStatusText(self):
-        sout = StringIO()
+        sout = StringIO.StringIO()
 
-        if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
+        if self.mStatus in (definitions.eStatus_VToDo_None, definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
             if self.hasEnd():
                 # Check due date
                 today = DateTime()
                 today.setToday()
                 if self.getEnd() > today:
-                    sout.append("Due: ")
-                    whendue = self.getEnd() - today
-                    if (whendue.getDays() > 0) and (whendue.getDays() <= 7):
-                        sout.write(whendue.getDays())
+                    sout.write("Due: ")
+                    whendue = self.daysBetween(today, self.getEnd())
+                    if whendue <= 7:
+                        sout.write(str(whendue))
                         sout.write(" days")
                     else:
                         sout.write(self.getEnd().getLocaleDate(DateTime.NUMERICDATE))
@@ -172,12 +172,12 @@ class VToDo(ComponentRecur):
                     sout.write("Due today")
                 else:
                     sout.write("Overdue: ")
-                    overdue = today - self.getEnd()
-                    if overdue.getWeeks() != 0:
-                        sout.write(overdue.getWeeks())
+                    overdue = self.daysBetween(self.getEnd(), today)
+                    if overdue % 7 == 0:
+                        sout.write(str(overdue // 7))
                         sout.write(" weeks")
                     else:
-                        sout.write(overdue.getDays() + 1)
+                        sout.write(str(overdue))
                         sout.write(" days")
             else:
                 sout.write("Not Completed")
@@ -187,10 +187,16 @@ class VToDo(ComponentRecur):
                 sout.write(self.getCompleted().getLocaleDate(DateTime.NUMERICDATE))
             else:
                 sout.write("Completed")
-        elif definitions.eStatus_VToDo_Cancelled:
+        elif self.mStatus == definitions.eStatus_VToDo_Cancelled:
             sout.write("Cancelled")
 
-        return sout.toString()
+        return sout.getvalue()
+
+    @staticmethod
+    def daysBetween(start, end):
+        # Whole days on the calendar, whatever the times of day
+        start, end = [DateTime(year=dt.getYear(), month=dt.getMonth(), day=dt.getDay()) for dt in (start, end)]
+        return (end - start).getTotalSeconds() // (24 * 60 * 60)
 
     def getCompletionState(self):
         if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
-- 
2.43.0


From 58547bc049dc25942c24244f7c7782337b3f36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 110/169] fix: a to-do without STATUS was neither due nor
 overdue

---
 src/pycalendar/icalendar/vtodo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 544de57..cf3016c 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -199,7 +199,7 @@ class VToDo(ComponentRecur):
         return (end - start).getTotalSeconds() // (24 * 60 * 60)
 
     def getCompletionState(self):
-        if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
+        if self.mStatus in (definitions.eStatus_VToDo_None, definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
             if self.hasEnd():
                 # Check due date
                 today = DateTime()
-- 
2.43.0


From 60fbc051d4a691b04757ca559270d49666bfc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 111/169] fix: asking a calendar for its to-dos gave none

---
 src/pycalendar/icalendar/calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index afa2656..13ec687 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -511,8 +511,7 @@ class Calendar(ContainerBase):
                 elif not vtodo.hasEnd() and (today > upto_due_date):
                     continue
 
-            # TODO: fix this
-            # list.append(ComponentExpandedShared(ComponentExpanded(vtodo, None)))
+            list.append(ComponentExpanded(vtodo, None))
 
     def getRecurrenceInstancesItems(self, type, uid, items):
         # Get instances from list
-- 
2.43.0


From f90d75b06b93b88b4c4fbc44c9341abfbe42b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 112/169] fix: a STATUS not in capitals was not understood

---
 src/pycalendar/icalendar/vevent.py | 1 +
 src/pycalendar/icalendar/vtodo.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 03e838f..ff556ce 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -87,6 +87,7 @@ class VEvent(ComponentRecur):
         self.mStatus = definitions.eStatus_VEvent_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
+            temp = temp.upper()
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
                 self.mStatus = definitions.eStatus_VEvent_Tentative
             elif temp == definitions.cICalProperty_STATUS_CONFIRMED:
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index cf3016c..e367de8 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -254,6 +254,7 @@ class VToDo(ComponentRecur):
         self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
+            temp = temp.upper()
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
                 self.mStatus = definitions.eStatus_VToDo_NeedsAction
             elif temp == definitions.cICalProperty_STATUS_COMPLETED:
-- 
2.43.0


From b2419dbe78c567fea746966ae247173ab6299e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 113/169] fix: vCard GEO and lists of texts could not be
 created from values

---
 src/pycalendar/vcard/property.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 026fe7c..1c81be8 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -15,6 +15,8 @@
 ##
 
 from pycalendar import stringutils
+from pycalendar.geovalue import GeoValue
+from pycalendar.multivalue import MultiValue
 from pycalendar.parameter import Parameter
 from pycalendar.datetime import DateTime
 from pycalendar.exceptions import InvalidProperty
@@ -329,3 +331,18 @@ class Property(PropertyBase):
 
         # Parameters
         self.setupValueParameter()
+
+    def _init_attr_value_geo(self, geo):
+        # Value
+        self.mValue = GeoValue([float(item) for item in geo])
+
+        # Parameters
+        self.setupValueParameter()
+
+    def _init_attr_value_text_list(self, txts):
+        # Value
+        self.mValue = MultiValue(Value.VALUETYPE_TEXT)
+        self.mValue.setValue(txts)
+
+        # Parameters
+        self.setupValueParameter()
-- 
2.43.0


From c8d960fc18c0f78eede490a1658c1f37370e7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 114/169] fix: jCard with N, ADR or ORG could not be read again

---
 src/pycalendar/utils.py          | 16 ++++++++++++++++
 src/pycalendar/vcard/adr.py      |  2 +-
 src/pycalendar/vcard/adrvalue.py |  3 ++-
 src/pycalendar/vcard/n.py        |  2 +-
 src/pycalendar/vcard/nvalue.py   |  3 ++-
 src/pycalendar/vcard/orgvalue.py |  5 +++--
 6 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 1f4199d..be01369 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -384,6 +384,22 @@ def generateDoubleNestedList(os, data):
     except:
         pass
 
+
+def parseDoubleNestedJSON(jobject, maxsize):
+    """
+    A single component may be given on its own, and missing ones at the end left out.
+    """
+    def _readElement(item):
+        if isinstance(item, basestring):
+            return item.encode("utf-8")
+        else:
+            return tuple([bit.encode("utf-8") for bit in item])
+
+    results = [_readElement(item) for item in ([jobject] if isinstance(jobject, basestring) else jobject)]
+    if len(results) > maxsize:
+        raise ValueError("too many components in value")
+    return tuple(results + [""] * (maxsize - len(results)))
+
 # Date/time calcs
 days_in_month = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
 days_in_month_leap = (0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 41f849f..fff754b 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -103,7 +103,7 @@ class Adr(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseDoubleNestedJSON(jobject, Adr.MAXITEMS)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/adrvalue.py b/src/pycalendar/vcard/adrvalue.py
index 8a1f01a..22a7d8a 100644
--- a/src/pycalendar/vcard/adrvalue.py
+++ b/src/pycalendar/vcard/adrvalue.py
@@ -16,6 +16,7 @@
 
 # vCard ADR value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.adr import Adr
@@ -26,4 +27,4 @@ class AdrValue(WrapperValue, Value):
     _wrappedClass = Adr
     _wrappedType = Value.VALUETYPE_ADR
 
-Value.registerType(Value.VALUETYPE_ADR, AdrValue, None)
+Value.registerType(Value.VALUETYPE_ADR, AdrValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index f3eba6e..463560c 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -102,7 +102,7 @@ class N(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseDoubleNestedJSON(jobject, N.MAXITEMS)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/nvalue.py b/src/pycalendar/vcard/nvalue.py
index e5e9c00..a2b97b3 100644
--- a/src/pycalendar/vcard/nvalue.py
+++ b/src/pycalendar/vcard/nvalue.py
@@ -16,6 +16,7 @@
 
 # vCard N value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.n import N
@@ -26,4 +27,4 @@ class NValue(WrapperValue, Value):
     _wrappedClass = N
     _wrappedType = Value.VALUETYPE_N
 
-Value.registerType(Value.VALUETYPE_N, NValue, None)
+Value.registerType(Value.VALUETYPE_N, NValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..5c44b24 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -17,6 +17,7 @@
 # vCard ORG value
 
 from pycalendar import utils
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 
 
@@ -41,7 +42,7 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple(map(lambda x: x.encode("utf-8"), [jobject] if isinstance(jobject, basestring) else jobject))
 
     def writeJSONValue(self, jobject):
         jobject.append(list(self.mValue))
@@ -52,4 +53,4 @@ class OrgValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
+Value.registerType(Value.VALUETYPE_ORG, OrgValue, None, xmldefinitions.value_text)
-- 
2.43.0


From aef0dd491f099fe8df91dc9b197c845a7c3b6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 115/169] fix: the group of a vCard property was left out of
 jCard

---
 src/pycalendar/property.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index efaf8e7..d65dd6d 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -451,6 +451,9 @@ class PropertyBase(object):
                         value = [v.encode("utf-8") for v in value]
                     else:
                         value = value.encode("utf-8")
+                    if name == "GROUP" and prop.sUsesGroup:
+                        prop.mGroup = value
+                        continue
                     attrvalue = Parameter(name=name.encode("utf-8"), value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
@@ -508,6 +511,10 @@ class PropertyBase(object):
                 if attr.getName().lower() != "value":
                     attr.writeJSON(prop[1])
 
+        # jCard has the group as a parameter
+        if self.sUsesGroup and self.mGroup:
+            prop[1]["group"] = self.mGroup
+
         # Write value
         if self.mValue and not novalue:
             self.mValue.writeJSON(prop)
-- 
2.43.0


From 9f9205570ae69d3e2e5916c80dfd6df57b67489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 116/169] fix: vCard values of type utc-offset were neither
 known nor written as that

---
 src/pycalendar/vcard/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/definitions.py b/src/pycalendar/vcard/definitions.py
index 17b86aa..ddc6c14 100644
--- a/src/pycalendar/vcard/definitions.py
+++ b/src/pycalendar/vcard/definitions.py
@@ -77,7 +77,7 @@ Value_INTEGER = "INTEGER"
 Value_TEXT = "TEXT"
 Value_TIME = "TIME"
 Value_URI = "URI"
-Value_UTCOFFSET = "UTCOFFSET"
+Value_UTCOFFSET = "UTC-OFFSET"
 Value_VCARD = "VCARD"
 
 Parameter_ENCODING = "ENCODING"
-- 
2.43.0


From aedfe45f49b97a39a98034cfe713b377277614aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 117/169] fix: jCard with an ORG of one component had it in
 letters

---
 src/pycalendar/vcard/orgvalue.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index 5c44b24..db0cc34 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -42,10 +42,17 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), [jobject] if isinstance(jobject, basestring) else jobject))
+        if isinstance(jobject, basestring):
+            self.mValue = jobject.encode("utf-8")
+        else:
+            self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
 
     def writeJSONValue(self, jobject):
-        jobject.append(list(self.mValue))
+        # A single component is written on its own
+        if isinstance(self.mValue, basestring):
+            jobject.append(self.mValue)
+        else:
+            jobject.append(list(self.mValue) if len(self.mValue) != 1 else self.mValue[0])
 
     def getValue(self):
         return self.mValue
-- 
2.43.0


From 9e9efd3b7e65c4fe16b6acc7049759a42092930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 118/169] fix: zonal misread or refused times and days that tz
 data has

24:00 was taken as 23:59:59; an UNTIL with seconds and a mode letter, one with a day form other than
four known ones, and a day like "Sat<=30" were refused.
---
 src/zonal/rule.py  | 56 ++++++++++++++++++++++-----------------------
 src/zonal/utils.py | 20 ++++++++++++++++
 src/zonal/zone.py  | 57 +++++++++-------------------------------------
 3 files changed, 58 insertions(+), 75 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..c553ee6 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -285,42 +285,40 @@ class Rule(object):
         dt.setMonth(Rule.MONTH_NAME_TO_POS[self.inMonth])
         dt.setDay(1)
 
-        # Setup base hours/minutes
-        splits = self.atTime.split(":")
-        if len(splits) == 1:
-            splits.append("0")
-        assert len(splits) == 2, "atTime format is wrong: %s, %s" % (self.atTime, self,)
-        hours = int(splits[0])
-        if len(splits[1]) > 2:
-            minutes = int(splits[1][:2])
-            special = splits[1][2:]
-        else:
-            minutes = int(splits[1])
-            special = ""
+        # Now determine the actual start day
+        Rule.setOnDay(dt, self.onDay)
 
-        # Special case for 24:00
-        if hours == 24 and minutes == 0:
-            dt.setHours(23)
-            dt.setMinutes(59)
-            dt.setSeconds(59)
-        else:
-            dt.setHours(hours)
-            dt.setMinutes(minutes)
+        # Add the time, which may be 24:00, or later
+        hours, minutes, seconds, special = utils.parseTime(self.atTime)
+        dt.offsetSeconds((hours * 60 + minutes) * 60 + seconds)
 
-        # Now determine the actual start day
-        if self.onDay in Rule.LASTDAY_NAME_TO_DAY:
-            dt.setDayOfWeekInMonth(-1, Rule.LASTDAY_NAME_TO_DAY[self.onDay])
-        elif self.onDay.find(">=") != -1:
-            splits = self.onDay.split(">=")
+        return dt, special
+
+    @staticmethod
+    def setOnDay(dt, onDay):
+        """
+        Set the day of a date-time to the one a tzdata day form gives for its month.
+
+        @param dt: date-time to change
+        @type dt: L{DateTime}
+        @param onDay: the tzdata day: a day number, "lastSun", "Sun>=8" or "Sun<=25"
+        @type onDay: C{str}
+        """
+        if onDay in Rule.LASTDAY_NAME_TO_DAY:
+            dt.setDayOfWeekInMonth(-1, Rule.LASTDAY_NAME_TO_DAY[onDay])
+        elif onDay.find(">=") != -1:
+            splits = onDay.split(">=")
             dt.setNextDayOfWeek(int(splits[1]), Rule.DAY_NAME_TO_DAY[splits[0]])
+        elif onDay.find("<=") != -1:
+            splits = onDay.split("<=")
+            dt.setDay(int(splits[1]))
+            dt.offsetDay(-divmod(dt.getDayOfWeek() - Rule.DAY_NAME_TO_DAY[splits[0]], 7)[1])
         else:
             try:
-                day = int(self.onDay)
+                day = int(onDay)
                 dt.setDay(day)
             except:
-                assert False, "onDay value is not recognized: %s" % (self.onDay,)
-
-        return dt, special
+                assert False, "onDay value is not recognized: %s" % (onDay,)
 
     def getOnDayDetails(self, start, indicatedDay, indicatedOffset):
         """
diff --git a/src/zonal/utils.py b/src/zonal/utils.py
index dc074e9..a86d9bd 100644
--- a/src/zonal/utils.py
+++ b/src/zonal/utils.py
@@ -15,6 +15,26 @@
 ##
 
 
+def parseTime(text):
+    """
+    Parse a tzdata time of day.
+
+    @param text: the time, e.g. "2:00", "24:00", "12:03:58u"
+    @type text: C{str}
+
+    @return: C{tuple} of hours, minutes, seconds, and the special tzdata mode character,
+        which is an empty C{str} if there is none
+    """
+    special = ""
+    if text[-1:].isalpha():
+        special = text[-1]
+        text = text[:-1]
+    splits = [int(item) for item in text.split(":")]
+    assert len(splits) <= 3, "time format is wrong: %s" % (text,)
+    splits.extend([0] * (3 - len(splits)))
+    return splits[0], splits[1], splits[2], special
+
+
 class DateTime(object):
     """
     A date-time object that wraps the tzdb wall-clock/utc style date-time information
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..f31af7e 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -352,54 +352,19 @@ class ZoneRule(object):
     def getUntilDate(self):
 
         if self._cached_until is None:
-            year = 9999
-            month = 12
-            day = 1
-            hours = 0
-            minutes = 0
-            seconds = 0
+            dt = DateTime(year=9999, month=12, day=1, hours=0, minutes=0, seconds=0)
             mode = None
             if self.until and not self.until.startswith("#"):
-                splits = self.until.split(" ")
-                year = int(splits[0])
-                month = 1
-                day = 1
-                hours = 0
-                minutes = 0
-                seconds = 0
-                mode = None
-                if len(splits) > 1 and not splits[1].startswith("#"):
-                    month = int(rule.Rule.MONTH_NAME_TO_POS[splits[1]])
-                    if len(splits) > 2 and not splits[2].startswith("#"):
-                        if splits[2] == "lastSun":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "lastSat":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SATURDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=1":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=8":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(8, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        day = int(splits[2])
-                        if len(splits) > 3 and not splits[3].startswith("#"):
-                            splits = splits[3].split(":")
-                            hours = int(splits[0])
-                            minutes = int(splits[1][:2])
-                            if len(splits[1]) > 2:
-                                mode = splits[1][2:]
-                            else:
-                                mode = None
-                            if len(splits) > 2:
-                                seconds = int(splits[2])
-
-            dt = DateTime(year=year, month=month, day=day, hours=hours, minutes=minutes, seconds=seconds)
+                splits = self.until.split("#")[0].split()
+                dt = DateTime(year=int(splits[0]), month=1, day=1, hours=0, minutes=0, seconds=0)
+                if len(splits) > 1:
+                    dt.setMonth(int(rule.Rule.MONTH_NAME_TO_POS[splits[1]]))
+                if len(splits) > 2:
+                    rule.Rule.setOnDay(dt, splits[2])
+                if len(splits) > 3:
+                    hours, minutes, seconds, mode = utils.parseTime(splits[3])
+                    dt.offsetSeconds((hours * 60 + minutes) * 60 + seconds)
+
             self._cached_until = utils.DateTime(dt, mode)
         return self._cached_until
 
-- 
2.43.0


From f7e21e8a8728280aa140b46d248e550113efbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 119/169] fix: VTIMEZONE rules for days moved by an offset were
 wrong or refused

A Sat or Mon rule moved into another month, a fixed day moved over the end of a month, the first
Sunday moved back, "Sat<=30", and days in February or past the month end.
---
 src/zonal/rule.py | 205 +++++++++++++++++-----------------------------
 1 file changed, 76 insertions(+), 129 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index c553ee6..d972244 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -127,16 +127,6 @@ class Rule(object):
         "Sat": DateTime.SATURDAY,
     }
 
-    LASTDAY_NAME_TO_RDAY = {
-        "lastSun": definitions.eRecurrence_WEEKDAY_SU,
-        "lastMon": definitions.eRecurrence_WEEKDAY_MO,
-        "lastTue": definitions.eRecurrence_WEEKDAY_TU,
-        "lastWed": definitions.eRecurrence_WEEKDAY_WE,
-        "lastThu": definitions.eRecurrence_WEEKDAY_TH,
-        "lastFri": definitions.eRecurrence_WEEKDAY_FR,
-        "lastSat": definitions.eRecurrence_WEEKDAY_SA,
-    }
-
     DAY_NAME_TO_RDAY = {
         DateTime.SUNDAY: definitions.eRecurrence_WEEKDAY_SU,
         DateTime.MONDAY: definitions.eRecurrence_WEEKDAY_MO,
@@ -320,71 +310,91 @@ class Rule(object):
             except:
                 assert False, "onDay value is not recognized: %s" % (onDay,)
 
-    def getOnDayDetails(self, start, indicatedDay, indicatedOffset):
+    def getShift(self, start):
+        """
+        Determine by how many days an instance is away from the day the Rule indicates. E.g. if
+        "u" mode is specified, the actual localtime may be on the previous day if the offset is
+        negative.
+
+        @param start: date-time of an instance
+        @type start: L{DateTime}
+
+        @return: C{int}
+        """
+        day = DateTime(start.getYear(), start.getMonth(), start.getDay())
+        shift = None
+        for year in (start.getYear() - 1, start.getYear(), start.getYear() + 1):
+            indicated = DateTime(year, Rule.MONTH_NAME_TO_POS[self.inMonth], 1)
+            Rule.setOnDay(indicated, self.onDay)
+            days = (day - indicated).getTotalSeconds() // (24 * 60 * 60)
+            if shift is None or abs(days) < abs(shift):
+                shift = days
+        return shift
+
+    def setRecurrenceDays(self, rrule, start):
         """
-        Get RRULE BYxxx part items from the Rule data.
+        Set the RRULE BYxxx parts for the days that this Rule has.
 
+        @param rrule: the recurrence to change
+        @type rrule: L{Recurrence}
         @param start: start date-time for the recurrence set
         @type start: L{DateTime}
-        @param indicatedDay: the day that the Rule indicates for recurrence
-        @type indicatedDay: C{int}
-        @param indicatedOffset: the offset that the Rule indicates for recurrence
-        @type indicatedOffset: C{int}
         """
 
-        month = start.getMonth()
-        year = start.getYear()
-        dayOfWeek = start.getDayOfWeek()
+        # Days of the month the Rule may fall on, those of February in a year that is not a leap one
+        month = Rule.MONTH_NAME_TO_POS[self.inMonth]
+        lastDay = daysInMonth(month, 1801)
+        if self.onDay in Rule.LASTDAY_NAME_TO_DAY:
+            days = range(lastDay - 6, lastDay + 1)
+            weekday = Rule.LASTDAY_NAME_TO_DAY[self.onDay]
+        elif self.onDay.find(">=") != -1:
+            weekday, day = self.onDay.split(">=")
+            days = range(int(day), int(day) + 7)
+            weekday = Rule.DAY_NAME_TO_DAY[weekday]
+        elif self.onDay.find("<=") != -1:
+            weekday, day = self.onDay.split("<=")
+            days = range(int(day) - 6, int(day) + 1)
+            weekday = Rule.DAY_NAME_TO_DAY[weekday]
+        else:
+            try:
+                days = [int(self.onDay)]
+            except:
+                assert False, "onDay value is not recognized: %s" % (self.onDay,)
+            weekday = None
 
         # Need to check whether day has changed due to time shifting
-        # e.g. if "u" mode is specified, the actual localtime may be
-        # shifted to the previous day if the offset is negative
-        if indicatedDay != dayOfWeek:
-            difference = dayOfWeek - indicatedDay
-            if difference in (1, -6,):
-                indicatedOffset += 1
-
-                # Adjust the month down too if needed
-                if start.getDay() == 1:
-                    month -= 1
-                    if month < 1:
-                        month = 12
-            elif difference in (-1, 6,):
-                assert indicatedOffset != 1, "Bad RRULE adjustment"
-                indicatedOffset -= 1
-            elif difference in (-5,):
-                pass
+        shift = self.getShift(start)
+        fromEnd = month > 2 or (month == 2 and self.onDay in Rule.LASTDAY_NAME_TO_DAY)
+        days = [day + shift for day in days]
+        if weekday is not None:
+            weekday = Rule.DAY_NAME_TO_RDAY[divmod(weekday + shift, 7)[1]]
+
+        if weekday is not None and shift == 0 and self.onDay in Rule.LASTDAY_NAME_TO_DAY:
+            rrule.setByMonth((month,))
+            rrule.setByDay(((-1, weekday),))
+        elif days[0] < 1 or days[-1] > lastDay or month == 2 and fromEnd:
+            # Some of the days are in another month: count days of the year, from its end
+            # if there may be a leap day before them
+            yearday = sum([daysInMonth(i, 1801) for i in range(1, month)])
+            days = [day + yearday for day in days]
+            if fromEnd:
+                days = [day - 366 if day < 366 else day - 365 for day in days]
             else:
-                assert False, "Unknown RRULE adjustment"
-
-        try:
-            # Form the appropriate RRULE bits
-            day = Rule.DAY_NAME_TO_RDAY[dayOfWeek]
-            offset = indicatedOffset
-            bymday = None
-            if offset == 1:
-                offset = 1
-            elif offset == 8:
-                offset = 2
-            elif offset == 15:
-                offset = 3
-            elif offset == 22:
-                offset = 4
+                days = [day if day > 0 else day - 1 for day in days]
+            rrule.setByYearDay(days)
+            if weekday is not None:
+                rrule.setByDay(((0, weekday),))
+        else:
+            rrule.setByMonth((month,))
+            if weekday is None:
+                pass
+            elif days[0] in (1, 8, 15, 22):
+                rrule.setByDay(((divmod(days[0], 7)[0] + 1, weekday),))
+            elif month != 2 and lastDay - days[-1] in (0, 7, 14):
+                rrule.setByDay(((-1 - divmod(lastDay - days[-1], 7)[0], weekday),))
             else:
-                days_in_month = daysInMonth(month, year)
-                if days_in_month - offset == 6:
-                    offset = -1
-                elif days_in_month - offset == 13:
-                    offset = -2
-                elif days_in_month - offset == 20:
-                    offset = -3
-                else:
-                    bymday = [offset + i for i in range(7) if (offset + i) <= days_in_month]
-                    offset = 0
-        except:
-            assert False, "onDay value is not recognized: %s" % (self.onDay,)
-
-        return offset, day, bymday
+                rrule.setByMonthDay(days)
+                rrule.setByDay(((0, weekday),))
 
     def expand(self, results, zoneinfo, maxYear):
         """
@@ -479,70 +489,7 @@ class Rule(object):
         if self.toYear != "only" and instanceCount != 1:
             rrule = Recurrence()
             rrule.setFreq(definitions.eRecurrence_YEARLY)
-            rrule.setByMonth((Rule.MONTH_NAME_TO_POS[self.inMonth],))
-            if self.onDay in Rule.LASTDAY_NAME_TO_RDAY:
-
-                # Need to check whether day has changed due to time shifting
-                dayOfWeek = start.getDayOfWeek()
-                indicatedDay = Rule.LASTDAY_NAME_TO_DAY[self.onDay]
-
-                if dayOfWeek == indicatedDay:
-                    rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
-                elif dayOfWeek < indicatedDay or dayOfWeek == 6 and indicatedDay == 0:
-                    # This is OK as we have moved back a day and thus no month transition
-                    # could have occurred
-                    fakeOffset = daysInMonth(start.getMonth(), start.getYear()) - 6
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, fakeOffset)
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                else:
-                    # This is bad news as we have moved forward a day possibly into the next month
-                    # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
-                    rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
-                    rrule.setByDay(
-                        ((0, divmod(Rule.LASTDAY_NAME_TO_DAY[self.onDay] + 1, 7)[1]),),
-                    )
-
-            elif self.onDay.find(">=") != -1:
-                indicatedDay, dayoffset = self.onDay.split(">=")
-
-                # Need to check whether day has changed due to time shifting
-                dayOfWeek = start.getDayOfWeek()
-                indicatedDay = Rule.DAY_NAME_TO_DAY[indicatedDay]
-
-                if dayOfWeek == indicatedDay:
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                elif dayoffset == 1 and divmod(dayoffset - indicatedDay, 7)[1] == 6:
-                    # This is bad news as we have moved backward a day possibly into the next month
-                    # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
-                    rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
-                    rrule.setByDay(
-                        ((0, divmod(indicatedDay + 1, 7)[1]),),
-                    )
-                else:
-                    # This is OK as we have moved forward a day and thus no month transition
-                    # could have occurred
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-            else:
-                try:
-                    int(self.onDay)
-                except:
-                    assert False, "onDay value is not recognized: %s" % (self.onDay,)
+            self.setRecurrenceDays(rrule, start)
 
             # Add any UNTIL
             if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
-- 
2.43.0


From ad2b4ba93c3a59f0c91b64d4a2129e7ef5223aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 120/169] fix: VTIMEZONE rule started at the start of a Zone
 line, on none of its days

and went on in years in which the Rule had no effect.
---
 src/zonal/rule.py | 32 ++++++++++++++++++++-----------
 src/zonal/zone.py | 49 +++++++++++++++++++++--------------------------
 2 files changed, 43 insertions(+), 38 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index d972244..093200b 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -310,26 +310,36 @@ class Rule(object):
             except:
                 assert False, "onDay value is not recognized: %s" % (onDay,)
 
+    def getIndicated(self, start):
+        """
+        Determine which year's date/time of the Rule is nearest to a date-time, and how far from
+        it that date-time is. E.g. if "u" mode is specified, the actual localtime is away from the
+        indicated one by the offset, and may be on the previous day if that is negative.
+
+        @param start: date-time of an instance
+        @type start: L{DateTime}
+
+        @return: C{tuple} of C{int} year and C{int} seconds
+        """
+        results = []
+        for year in (start.getYear() - 1, start.getYear(), start.getYear() + 1):
+            seconds = (start - self.datetimeForYear(year)[0]).getTotalSeconds()
+            results.append((abs(seconds), year, seconds))
+        return min(results)[1:]
+
     def getShift(self, start):
         """
-        Determine by how many days an instance is away from the day the Rule indicates. E.g. if
-        "u" mode is specified, the actual localtime may be on the previous day if the offset is
-        negative.
+        Determine by how many days an instance is away from the day the Rule indicates.
 
         @param start: date-time of an instance
         @type start: L{DateTime}
 
         @return: C{int}
         """
+        indicated = DateTime(self.getIndicated(start)[0], Rule.MONTH_NAME_TO_POS[self.inMonth], 1)
+        Rule.setOnDay(indicated, self.onDay)
         day = DateTime(start.getYear(), start.getMonth(), start.getDay())
-        shift = None
-        for year in (start.getYear() - 1, start.getYear(), start.getYear() + 1):
-            indicated = DateTime(year, Rule.MONTH_NAME_TO_POS[self.inMonth], 1)
-            Rule.setOnDay(indicated, self.onDay)
-            days = (day - indicated).getTotalSeconds() // (24 * 60 * 60)
-            if shift is None or abs(days) < abs(shift):
-                shift = days
-        return shift
+        return (day - indicated).getTotalSeconds() // (24 * 60 * 60)
 
     def setRecurrenceDays(self, rrule, start):
         """
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index f31af7e..e176c9b 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -199,33 +199,28 @@ class Zone(object):
             # Generate VTIMEZONE component for last set of rules
             for tzrule in ruleorder:
                 if tzrule:
-                    # Accumulate tzrule portions with the same offset pairs
-                    lastOffsetPair = (rulemap[tzrule][0][1], rulemap[tzrule][0][2],)
-                    startIndex = 0
-                    for index in xrange(len(rulemap[tzrule])):
-                        offsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
-                        if offsetPair != lastOffsetPair:
-                            tzrule.vtimezone(
-                                vtz,
-                                lastZoneRule,
-                                rulemap[tzrule][startIndex][0],
-                                rulemap[tzrule][index - 1][0],
-                                rulemap[tzrule][startIndex][1],
-                                rulemap[tzrule][startIndex][2],
-                                index - startIndex,
-                            )
-                            lastOffsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
-                            startIndex = index
-
-                    tzrule.vtimezone(
-                        vtz,
-                        lastZoneRule,
-                        rulemap[tzrule][startIndex][0],
-                        rulemap[tzrule][index][0],
-                        rulemap[tzrule][startIndex][1],
-                        rulemap[tzrule][startIndex][2],
-                        len(rulemap[tzrule]),
-                    )
+                    # Accumulate tzrule portions with the same offset pairs, at the same time
+                    # in successive years (when the Zone line starts may be none of the Rule's times)
+                    portions = []
+                    lastKey = None
+                    for item in rulemap[tzrule]:
+                        year, seconds = tzrule.getIndicated(item[0])
+                        key = (item[1], item[2], seconds, year,)
+                        if lastKey is None or key != lastKey[:3] + (lastKey[3] + 1,):
+                            portions.append([])
+                        portions[-1].append(item)
+                        lastKey = key
+
+                    for portion in portions:
+                        tzrule.vtimezone(
+                            vtz,
+                            lastZoneRule,
+                            portion[0][0],
+                            portion[-1][0],
+                            portion[0][1],
+                            portion[0][2],
+                            len(portion),
+                        )
                 else:
                     lastZoneRule.vtimezone(
                         vtz,
-- 
2.43.0


From bb9c7bbf8a66f01e1f0d9610a6beda93c0ccd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 121/169] fix: VTIMEZONE lacked a change to an LMT other than
 the first

---
 src/zonal/zone.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index e176c9b..0cf3712 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -235,13 +235,12 @@ class Zone(object):
 
         for dt, offsetfrom, offsetto, zonerule, tzrule in transitions:
 
-            # Check for change of rule - we ignore LMT's
-            if zonerule.format != "LMT":
-                if lastZoneRule and lastZoneRule != zonerule:
-                    _generateRuleData()
-                if tzrule not in ruleorder:
-                    ruleorder.append(tzrule)
-                rulemap.setdefault(tzrule, []).append((dt, offsetfrom, offsetto,))
+            # Check for change of rule (the LMT a Zone starts with is not in the transitions)
+            if lastZoneRule and lastZoneRule != zonerule:
+                _generateRuleData()
+            if tzrule not in ruleorder:
+                ruleorder.append(tzrule)
+            rulemap.setdefault(tzrule, []).append((dt, offsetfrom, offsetto,))
             lastZoneRule = zonerule
 
         # Do left overs
-- 
2.43.0


From 4320ea8b0c1537fc3fa1c03748dac94d98d5adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 122/169] fix: a Rule went on giving the transitions up to the
 first year asked for

---
 src/zonal/rule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 093200b..1463219 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -166,6 +166,7 @@ class Rule(object):
         self.letter = ""
 
         self.dt_cache = None
+        self.dt_cache_max = None
 
     def __str__(self):
         return self.generate()
@@ -435,12 +436,13 @@ class Rule(object):
         @param maxYear: maximum year to expand to
         @type maxYear: C{int}
         """
-        if self.dt_cache is None:
+        if self.dt_cache is None or self.dt_cache_max != maxYear:
             start = self.startYear()
             end = self.endYear()
-            if end > maxYear:
+            if end >= maxYear:
                 end = maxYear - 1
             self.dt_cache = []
+            self.dt_cache_max = maxYear
             for year in xrange(start, end + 1):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
-- 
2.43.0


From cd9f50f5ab61bfed0d3be9554417a5504508d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 123/169] fix: a negative saving with minutes had the minutes
 added

---
 src/zonal/rule.py | 14 ++++----------
 src/zonal/zone.py |  4 +++-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 1463219..1fd9ab7 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -235,17 +235,11 @@ class Rule(object):
 
         @return: C{int}
         """
-        splits = self.saveTime.split(":")
+        splits = self.saveTime.lstrip("-").split(":")
         hours = int(splits[0])
-        if len(splits) == 2:
-            minutes = int(splits[1])
-        else:
-            minutes = 0
-        negative = hours < 0
-        if negative:
-            return -((-hours * 60) + minutes) * 60
-        else:
-            return ((hours * 60) + minutes) * 60
+        minutes = int(splits[1]) if len(splits) > 1 else 0
+        offset = ((hours * 60) + minutes) * 60
+        return -offset if self.saveTime.startswith("-") else offset
 
     def startYear(self):
         return int(self.fromYear)
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 0cf3712..3f474f3 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -442,10 +442,12 @@ class ZoneRule(object):
     def getNumericOffset(self):
         offset = 0
         if self.rule != "-":
-            splits = self.rule.split(":")
+            splits = self.rule.lstrip("-").split(":")
             offset = 60 * 60 * int(splits[0])
             if len(splits) > 1:
                 offset += 60 * int(splits[1])
+            if self.rule.startswith("-"):
+                offset = -offset
         return offset
 
     def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto):
-- 
2.43.0


From 5f0580a4eb9ff3ebe0ad9155e5550080eeb54a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 124/169] fix: VTIMEZONE without any change from its first year
 on was empty

---
 src/zonal/zone.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 3f474f3..0c9862f 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -151,6 +151,7 @@ class Zone(object):
 
         # Now scan transitions looking for real changes and note those
         results = []
+        last_result = None
         last_transition = (startdt, start_offset, start_offset)
         for transition in transitions:
             dtutc, to_offset, zonerule, rule = transition
@@ -165,8 +166,16 @@ class Zone(object):
                         results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
                     else:
                         results.append((last_transition[0], last_transition[1], last_transition[2], zonerule, None))
+            elif dt > last_transition[0]:
+                last_result = (dt, last_transition[1], to_offset, zonerule, rule)
+            else:
+                last_result = (last_transition[0], last_transition[1], to_offset, zonerule, None)
             last_transition = (dt, to_offset, last_transition[2], rule)
 
+        # When nothing changes from the starting year on, what was last changed is still needed
+        if len(results) == 0 and last_result is not None:
+            results.append(last_result)
+
         return results
 
     def vtimezone(self, calendar, rules, minYear, maxYear):
-- 
2.43.0


From 271a7d7e3d95b6f7d2fd6881b03c252977fbb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 125/169] fix: a Zone line whose Rules all start later had the
 offset of the line before

---
 src/zonal/zone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 0c9862f..e5461f4 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -429,6 +429,9 @@ class ZoneRule(object):
                 found_one = True
 
             if found_start == 0:
+                if not found_one:
+                    last_offset = self.getUTCOffset()
+                    last_stdoffset = self.getUTCOffset()
                 results.append((lastUntilUTC, last_offset, self, None))
 
             return last_offset, last_stdoffset
-- 
2.43.0


From 9a49f2732f002143349a93b06b56fd3887423f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 126/169] fix: TZNAME of a Zone line with a pair of names was
 the pair

---
 src/zonal/zone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index e5461f4..90399e5 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -480,6 +480,9 @@ class ZoneRule(object):
         # Do TZNAME
         if self.format.find("%") != -1:
             tzname = self.format % ("S",)
+        elif "/" in self.format:
+            split_format = self.format.split("/")
+            tzname = split_format[0] if comp.getType() == definitions.cICalComponent_STANDARD else split_format[1]
         else:
             tzname = self.format
         comp.addProperty(Property(definitions.cICalProperty_TZNAME, tzname))
-- 
2.43.0


From db31cb1a25709e7a4d35f4db7750a440392617f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 127/169] fix: a Zone of one line with a fixed saving did not
 have the saving

---
 src/zonal/zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 90399e5..c93266f 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -165,7 +165,7 @@ class Zone(object):
                     if len(results):
                         results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
                     else:
-                        results.append((last_transition[0], last_transition[1], last_transition[2], zonerule, None))
+                        results.append((last_transition[0], last_transition[1], to_offset, zonerule, None))
             elif dt > last_transition[0]:
                 last_result = (dt, last_transition[1], to_offset, zonerule, rule)
             else:
-- 
2.43.0


From 51ad48a6279acf2f7bdcac1b7d308b3fa7042a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 128/169] fix: a change of Zone line and Rule at once did not
 have the name and type of the Rule

---
 src/zonal/zone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index c93266f..378317a 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -163,13 +163,13 @@ class Zone(object):
                     results.append((dt, last_transition[1], to_offset, zonerule, rule))
                 elif dt <= last_transition[0]:
                     if len(results):
-                        results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
+                        results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, rule))
                     else:
-                        results.append((last_transition[0], last_transition[1], to_offset, zonerule, None))
+                        results.append((last_transition[0], last_transition[1], to_offset, zonerule, rule))
             elif dt > last_transition[0]:
                 last_result = (dt, last_transition[1], to_offset, zonerule, rule)
             else:
-                last_result = (last_transition[0], last_transition[1], to_offset, zonerule, None)
+                last_result = (last_transition[0], last_transition[1], to_offset, zonerule, rule)
             last_transition = (dt, to_offset, last_transition[2], rule)
 
         # When nothing changes from the starting year on, what was last changed is still needed
-- 
2.43.0


From e9eca1562ce2861443ac7c63e4f28a1ccb6e1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 129/169] fix: VTIMEZONE rule with one pair of offsets went on
 when another had taken over

---
 src/zonal/rule.py | 6 ++++--
 src/zonal/zone.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 1fd9ab7..a6a2b88 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -441,7 +441,7 @@ class Rule(object):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount):
+    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount, last=True):
         """
         Generate a VTIMEZONE sub-component for this Rule.
 
@@ -459,6 +459,8 @@ class Rule(object):
         @type offsetto: C{int}
         @param instanceCount: the number of instances in the set
         @type instanceCount: C{int}
+        @param last: whether the set is the last one this Rule has
+        @type last: C{bool}
         """
 
         # Determine type of component based on offset
@@ -498,7 +500,7 @@ class Rule(object):
             self.setRecurrenceDays(rrule, start)
 
             # Add any UNTIL
-            if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
+            if not last or zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
                 until = end.duplicate()
                 until.offsetSeconds(-offsetfrom)
                 until.setTimezoneUTC(True)
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 378317a..92b182f 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -229,6 +229,7 @@ class Zone(object):
                             portion[0][1],
                             portion[0][2],
                             len(portion),
+                            portion is portions[-1],
                         )
                 else:
                     lastZoneRule.vtimezone(
-- 
2.43.0


From 348692712aa4e1b2d1f9bcdbbdd9102a896897ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 130/169] fix: zonal took times of modes g and z for wall clock
 times

---
 src/zonal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/utils.py b/src/zonal/utils.py
index a86d9bd..a0a078a 100644
--- a/src/zonal/utils.py
+++ b/src/zonal/utils.py
@@ -43,7 +43,7 @@ class DateTime(object):
 
     def __init__(self, dt, mode):
         self.dt = dt
-        self.mode = mode
+        self.mode = "u" if mode in ("g", "z") else mode
 
     def __repr__(self):
         return str(self.dt)
-- 
2.43.0


From a9e627746f667c8d601cb89c1f6c2f4248e04892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 131/169] fix: files of links had the name of the zone replaced
 in names of its times too

---
 src/zonal/tzconvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 0bdba7d..5d6bc02 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -195,7 +195,8 @@ class tzconvert(object):
 
                 with open(fromPath) as f:
                     icsdata = f.read()
-                icsdata = icsdata.replace(linkFrom, linkTo)
+                for name in ("TZID:", "X-LIC-LOCATION:"):
+                    icsdata = icsdata.replace("\n%s%s\r" % (name, linkFrom,), "\n%s%s\r" % (name, linkTo,))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From 55a3438a698c10e33f268f8293119828be9c5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 132/169] fix: a link to a link that sorts after it had no file

---
 src/zonal/tzconvert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 5d6bc02..56499dc 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -187,6 +187,12 @@ class tzconvert(object):
             link_list = []
             for linkTo, linkFrom in sorted(self.links.iteritems(), key=lambda x: x[0]):
 
+                # A link may be to another link
+                followed = [linkTo]
+                while linkFrom not in self.zones and linkFrom in self.links and linkFrom not in followed:
+                    followed.append(linkFrom)
+                    linkFrom = self.links[linkFrom]
+
                 # Check for existing output file
                 fromPath = os.path.join(outputdir, linkFrom + ".ics")
                 if not os.path.exists(fromPath):
-- 
2.43.0


From c9e9fb042bae1630a310e3b79cf31127f8605223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 133/169] fix: getMonthTable failed for every month

The rows were added as seven numbers and not as one list, and the days of the
previous month went into the last row instead of the first.
---
 src/pycalendar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index be01369..c868f3e 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -508,7 +508,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
     for day in range(1, max_day + 1):
         # Insert new row if we are at the start of a row
         if (col == 0) or (day == 1):
-            table.extend([0] * 7)
+            table.append([0] * 7)
             row += 1
 
         # Set the table item to the current day
@@ -543,7 +543,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
         day = daysInMonth(temp.getMonth(), temp.getYear())
         back_col = initial_col - 1
         while(back_col >= 0):
-            table[row][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
+            table[0][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
 
             # Check on today
             if (temp.getYear() == today.getYear()) and (temp.getMonth() == today.getMonth()) and (day == today.getDay()):
-- 
2.43.0


From 64011e70996d8d4f3674f5e2e3d54d9008fe2850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 134/169] fix: the description of a recurrence rule was always
 empty

StringIO is the module here, so making one always failed.
---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index b8e7408..f214dd1 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -837,7 +837,7 @@ class Recurrence(ValueMixin):
     def getUIDescription(self):
         try:
             # For now just use iCal item
-            sout = StringIO()
+            sout = StringIO.StringIO()
             self.generate(sout)
             result = sout.getvalue()
         except:
-- 
2.43.0


From d3781c2489322a3c84c63c5f44a012926592c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 135/169] fix: today in a timezone was the date of the
 machine's own timezone

---
 src/pycalendar/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 9ac483e..0df2251 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -703,6 +703,11 @@ class DateTime(ValueMixin):
 
     @staticmethod
     def getToday(tzid=None):
+        # In a timezone it is the date there
+        if tzid is not None and not tzid.floating():
+            now = DateTime.getNow(tzid)
+            return DateTime(year=now.getYear(), month=now.getMonth(), day=now.getDay(), tzid=tzid)
+
         # Get from posix time
         now = time.time()
         now_tm = time.localtime(now)
-- 
2.43.0


From 22f04eb0b36def9ff165c239a90004a0b27c23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 136/169] fix: comparing two timezones of the same offset
 failed

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ae9b8d1..6babe27 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -284,7 +284,7 @@ class VTimezone(Component):
         sort1 = tz1.getUTCOffsetSortKey()
         sort2 = tz2.getUTCOffsetSortKey()
         if sort1 == sort2:
-            return tz1.getID().compareToIgnoreCase(tz2.getID())
+            return cmp(tz1.getID().lower(), tz2.getID().lower())
         else:
             return (1, -1)[sort1 < sort2]
 
-- 
2.43.0


From 559a9a3deca9d0ddfce11a8e36c5238844b667a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 137/169] fix: BEGIN and END lines in lower case were read as
 properties

Component names are case-insensitive: such components were lost without notice.
---
 src/pycalendar/containerbase.py       | 15 ++++++++-------
 src/pycalendar/icalendar/calendar.py  | 15 ++++++++-------
 src/pycalendar/icalendar/component.py |  2 +-
 src/pycalendar/utils.py               |  8 ++++++++
 src/pycalendar/validator.py           |  4 ++--
 src/pycalendar/vcard/card.py          |  9 +++++----
 6 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 67399e7..fd7c78b 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -18,7 +18,7 @@ from cStringIO import StringIO
 from pycalendar.componentbase import ComponentBase
 from pycalendar.exceptions import InvalidData, ValidationError
 from pycalendar.parser import ParserContext
-from pycalendar.utils import readFoldedLine
+from pycalendar.utils import componentDelimiter, readFoldedLine
 import json
 
 
@@ -127,11 +127,12 @@ class ContainerBase(ComponentBase):
         while readFoldedLine(ins, lines):
 
             line = lines[0]
+            delimiter = componentDelimiter(line)
 
             if state == LOOK_FOR_CONTAINER:
 
                 # Look for start
-                if line == self.getBeginDelimiter():
+                if delimiter == self.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY_OR_COMPONENT
 
@@ -151,17 +152,17 @@ class ContainerBase(ComponentBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:") and self.sComponentType is not None:
+                if delimiter is not None and delimiter.startswith("BEGIN:") and self.sComponentType is not None:
 
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
                     # Start a new component
                     comp = self.sComponentType.makeComponent(line[6:], comp)
-                    compend = comp.getEndDelimiter()
+                    compend = comp.getEndDelimiter().upper()
 
                 # Look for end of object
-                elif line == self.getEndDelimiter():
+                elif delimiter == self.getEndDelimiter():
 
                     # All components must have ended
                     if componentstack:
@@ -174,7 +175,7 @@ class ContainerBase(ComponentBase):
                     state = LOOK_FOR_CONTAINER
 
                 # Look for end of current component
-                elif line == compend:
+                elif delimiter is not None and delimiter == compend:
 
                     # Finalise the component (this caches data from the properties)
                     comp.finalise()
@@ -184,7 +185,7 @@ class ContainerBase(ComponentBase):
                     comp, compend = componentstack.pop()
 
                 # End of something that is not current, or start of something where nothing can be nested
-                elif line.startswith("END:") or line.startswith("BEGIN:"):
+                elif delimiter is not None:
                     raise InvalidData("%s data has unexpected start or end" % (self.sContainerDescriptor,), line)
 
                 # Blank line
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 13ec687..2c75104 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -28,7 +28,7 @@ from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.validation import ICALENDAR_VALUE_CHECKS
 from pycalendar.parser import ParserContext
 from pycalendar.period import Period
-from pycalendar.utils import readFoldedLine
+from pycalendar.utils import componentDelimiter, readFoldedLine
 import collections
 import json
 import xml.etree.cElementTree as XML
@@ -231,11 +231,12 @@ class Calendar(ContainerBase):
         while readFoldedLine(ins, lines):
 
             line = lines[0]
+            delimiter = componentDelimiter(line)
 
             if state == LOOK_FOR_VCALENDAR:
 
                 # Look for start
-                if line == self.getBeginDelimiter():
+                if delimiter == self.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY_OR_COMPONENT
 
@@ -252,14 +253,14 @@ class Calendar(ContainerBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:"):
+                if delimiter is not None and delimiter.startswith("BEGIN:"):
 
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
                     # Start a new component
                     comp = self.sComponentType.makeComponent(line[6:], comp)
-                    compend = comp.getEndDelimiter()
+                    compend = comp.getEndDelimiter().upper()
 
                     # Cache as result - but only the first one, we ignore the rest
                     if result is None:
@@ -269,7 +270,7 @@ class Calendar(ContainerBase):
                     if comp.getType() == definitions.cICalComponent_VTIMEZONE:
                         got_timezone = True
 
-                elif line == self.getEndDelimiter():
+                elif delimiter == self.getEndDelimiter():
 
                     # All components must have ended
                     if componentstack:
@@ -279,7 +280,7 @@ class Calendar(ContainerBase):
                     state = GOT_VCALENDAR
 
                 # Look for end of current component
-                elif line == compend:
+                elif delimiter is not None and delimiter == compend:
 
                     # Finalise the component (this caches data from the properties)
                     comp.finalise()
@@ -289,7 +290,7 @@ class Calendar(ContainerBase):
                     comp, compend = componentstack.pop()
 
                 # End of something that is not current
-                elif line.startswith("END:"):
+                elif delimiter is not None:
                     raise InvalidData("iCalendar data has unexpected end", line)
 
                 # Blank line
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index ecb2f12..4f3aa9f 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -43,7 +43,7 @@ class Component(ComponentBase):
     @classmethod
     def makeComponent(cls, compname, parent):
         try:
-            return cls.mapper[compname](parent=parent)
+            return cls.mapper[compname.upper()](parent=parent)
         except KeyError:
             return cls.mapper[definitions.cICalComponent_UNKNOWN](parent=parent, comptype=compname)
 
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index c868f3e..89c47f0 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -459,6 +459,14 @@ def leapDaysSince1970(year_offset):
         return result
 
 
+def componentDelimiter(line):
+    """
+    The start or end of a component that a line is, in the upper case that these are written
+    in as their names are case-insensitive, or L{None} if it is neither.
+    """
+    return line.upper() if line[:6].upper() == "BEGIN:" or line[:4].upper() == "END:" else None
+
+
 # Packed date
 def packDate(year, month, day):
     return (year << 16) | (month << 8) | (day + 128)
diff --git a/src/pycalendar/validator.py b/src/pycalendar/validator.py
index a48d640..a4ffbf9 100755
--- a/src/pycalendar/validator.py
+++ b/src/pycalendar/validator.py
@@ -33,13 +33,13 @@ def validate(fname):
 
     ParserContext.allRaise()
 
-    if data.find("BEGIN:VCALENDAR") != -1:
+    if data.upper().find("BEGIN:VCALENDAR") != -1:
         try:
             cal = Calendar.parseText(data)
         except ErrorBase as e:
             print("Failed to parse iCalendar: {}: {}".format(e.mReason, e.mData,))
             sys.exit(1)
-    elif data.find("BEGIN:VCARD") != -1:
+    elif data.upper().find("BEGIN:VCARD") != -1:
         try:
             cal = Card.parseText(data)
         except ErrorBase as e:
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index fa9e038..e00bff7 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -18,7 +18,7 @@ from cStringIO import StringIO
 from pycalendar.containerbase import ContainerBase
 from pycalendar.exceptions import InvalidData
 from pycalendar.parser import ParserContext
-from pycalendar.utils import readFoldedLine
+from pycalendar.utils import componentDelimiter, readFoldedLine
 from pycalendar.vcard import definitions
 from pycalendar.vcard.definitions import VCARD, Property_VERSION, \
     Property_PRODID, Property_UID
@@ -96,10 +96,11 @@ class Card(ContainerBase):
         while readFoldedLine(ins, lines):
 
             line = lines[0]
+            delimiter = componentDelimiter(line)
             if state == LOOK_FOR_VCARD:
 
                 # Look for start
-                if line == card.getBeginDelimiter():
+                if delimiter == card.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY
 
@@ -116,7 +117,7 @@ class Card(ContainerBase):
             elif state == GET_PROPERTY:
 
                 # Look for end of object
-                if line == card.getEndDelimiter():
+                if delimiter == card.getEndDelimiter():
 
                     # Finalise the current calendar
                     card.finalise()
@@ -138,7 +139,7 @@ class Card(ContainerBase):
                         raise InvalidData("vCard data has blank lines")
 
                 # Cards cannot be nested
-                elif line.startswith("END:") or line.startswith("BEGIN:"):
+                elif delimiter is not None:
                     raise InvalidData("vCard data has unexpected start or end", line)
 
                 # Must be a property
-- 
2.43.0


From c5091b618d16159a9ea52337fa7773c3f7a0e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 138/169] fix: recurrence rules in lower case were refused

The names and values of a rule are case-insensitive.
---
 src/pycalendar/icalendar/recurrence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f214dd1..8151976 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -349,6 +349,11 @@ class Recurrence(ValueMixin):
             except ValueError:
                 raise ValueError("Recurrence: Invalid token '%s'" % (token,))
 
+            # Names and values are case-insensitive, except for dates
+            tname = tname.upper()
+            if tname != definitions.cICalValue_RECUR_UNTIL:
+                tvalue = tvalue.upper()
+
             # Determine token type
             index = Recurrence.cRecurMap.get(tname, Recurrence.cUnknownIndex)
             if index == Recurrence.cUnknownIndex:
-- 
2.43.0


From f652129ad7accce8e1a5d4abfc9f26c416382636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 139/169] fix: RANGE, RELATED and ACTION in lower case had no
 effect

These values are case-insensitive, as is done for STATUS, TRANSP and FBTYPE.
---
 src/pycalendar/icalendar/componentrecur.py | 5 +++--
 src/pycalendar/icalendar/valarm.py         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 2a529ac..2ca34b3 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -278,8 +278,9 @@ class ComponentRecur(Component):
             # Also get the RANGE parameter
             attrs = self.findFirstProperty(definitions.cICalProperty_RECURRENCE_ID).getParameters()
             if definitions.cICalParameter_RANGE in attrs:
-                self.mAdjustFuture = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDFUTURE)
-                self.mAdjustPrior = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDPRIOR)
+                range = attrs[definitions.cICalParameter_RANGE][0].getFirstValue().upper()
+                self.mAdjustFuture = (range == definitions.cICalParameter_RANGE_THISANDFUTURE)
+                self.mAdjustPrior = (range == definitions.cICalParameter_RANGE_THISANDPRIOR)
             else:
                 self.mAdjustFuture = False
                 self.mAdjustPrior = False
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 01d26f6..718e4c7 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -423,7 +423,7 @@ class VAlarm(Component):
         # Get the ACTION
         temp = self.loadValueString(definitions.cICalProperty_ACTION)
         if temp is not None:
-            self.mAction = VAlarm.sActionMap.get(temp, definitions.eAction_VAlarm_Unknown)
+            self.mAction = VAlarm.sActionMap.get(temp.upper(), definitions.eAction_VAlarm_Unknown)
             self.loadAction()
 
         # Get the trigger
@@ -443,7 +443,7 @@ class VAlarm(Component):
 
                 # Look for RELATED parameter
                 if prop.hasParameter(definitions.cICalParameter_RELATED):
-                    temp = prop.getParameterValue(definitions.cICalParameter_RELATED)
+                    temp = prop.getParameterValue(definitions.cICalParameter_RELATED).upper()
                     if temp == definitions.cICalParameter_RELATED_START:
                         self.mTriggerOnStart = True
                     elif temp == definitions.cICalParameter_RELATED_END:
-- 
2.43.0


From f65441a12abadec8070f026bef66964e41f4fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 140/169] fix: a component called UNKNOWN could not be read

Its type was empty, so its own end was not the end of it.
---
 src/pycalendar/icalendar/vunknown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vunknown.py b/src/pycalendar/icalendar/vunknown.py
index 58a7229..58c7b45 100644
--- a/src/pycalendar/icalendar/vunknown.py
+++ b/src/pycalendar/icalendar/vunknown.py
@@ -24,7 +24,7 @@ class UnknownComponent(Component):
 
     propertyValueChecks = ICALENDAR_VALUE_CHECKS
 
-    def __init__(self, parent=None, comptype=""):
+    def __init__(self, parent=None, comptype=definitions.cICalComponent_UNKNOWN):
         super(UnknownComponent, self).__init__(parent=parent)
         self.mType = comptype
         self.mMapKey = str(uuid.uuid4())
-- 
2.43.0


From fa48f050b4a177b9832a29e1fb89fd3e3bb82922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 141/169] fix: a default timezone with rules made every
 question about a timezone recurse without end

The times in a VTIMEZONE are floating, so sorting and hashing them asked the default timezone for
their offset.
---
 src/pycalendar/datetime.py                | 12 +++++++++++-
 src/pycalendar/icalendar/recurrence.py    |  4 ++--
 src/pycalendar/icalendar/recurrenceset.py |  8 ++++----
 src/pycalendar/icalendar/vtimezone.py     |  2 +-
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 0df2251..36c9f59 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -133,7 +133,7 @@ class DateTime(ValueMixin):
         return "DateTime: %s" % (self.getText(),)
 
     def __hash__(self):
-        return hash(self.getPosixTime())
+        return hash(self.getSortTime())
 
     # Operators
     def __add__(self, duration):
@@ -276,6 +276,16 @@ class DateTime(ValueMixin):
 
         return self.mPosixTime
 
+    def getSortTime(self):
+        """
+        The time to sort and hash by. What a floating time is in the default timezone is left out: that can
+        change at any moment, and finding it can need the (floating) times in a timezone to be sorted.
+        """
+        if self.floating():
+            return ((self.daysSince1970() * 24L + self.mHours) * 60L + self.mMinutes) * 60L + self.mSeconds
+        else:
+            return self.getPosixTime()
+
     def isDateOnly(self):
         return self.mDateOnly
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 8151976..f5dbe92 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -988,7 +988,7 @@ class Recurrence(ValueMixin):
 
             # Always sort the set as BYxxx rules may not be sorted
             # set_items.sort(cmp=DateTime.sort)
-            set_items.sort(key=lambda x: x.getPosixTime())
+            set_items.sort(key=lambda x: x.getSortTime())
 
             # BYxxx values may overlap, but an instance only counts once
             set_items = self.uniqueSorted(set_items)
@@ -1727,7 +1727,7 @@ class Recurrence(ValueMixin):
     def bySetPosLimit(self, dates):
         # The input dates MUST be sorted in order for this to work properly
         # dates.sort(cmp=DateTime.sort)
-        dates.sort(key=lambda x: x.getPosixTime())
+        dates.sort(key=lambda x: x.getSortTime())
         dates = self.uniqueSorted(dates)
 
         # Loop over each BYSETPOS and extract the relevant component from the
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index b4a7b59..9ce8fec 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -108,8 +108,8 @@ class RecurrenceSet(object):
         dt1 = dates1[:]
         dt2 = dates2[:]
 
-        dt1.sort(key=lambda x: x.getPosixTime())
-        dt2.sort(key=lambda x: x.getPosixTime())
+        dt1.sort(key=lambda x: x.getSortTime())
+        dt2.sort(key=lambda x: x.getSortTime())
 
         return dt1 == dt2
 
@@ -201,7 +201,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         include = [x for x in set(include)]
-        include.sort(key=lambda x: x.getPosixTime())
+        include.sort(key=lambda x: x.getSortTime())
 
         # Now create list of items to exclude
         exclude = []
@@ -220,7 +220,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         exclude = [x for x in set(exclude)]
-        exclude.sort(key=lambda x: x.getPosixTime())
+        exclude.sort(key=lambda x: x.getSortTime())
 
         # Add difference between to the two sets (include - exclude) to the
         # results
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 6babe27..d5da291 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -269,7 +269,7 @@ class VTimezone(Component):
             utcdt.setTimezoneUTC(True)
             items.insert(1, utcdt)
             utc_results.append(tuple(items))
-        utc_results.sort(key=lambda x: x[0].getPosixTime())
+        utc_results.sort(key=lambda x: x[0].getSortTime())
         return utc_results
 
     def sortedPropertyKeyOrder(self):
-- 
2.43.0


From 6f9711c608dfdc82bf1173909017301d46731868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 142/169] fix: a floating time kept the offset of a default
 timezone since replaced

---
 src/pycalendar/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 36c9f59..309a545 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1162,7 +1162,8 @@ class DateTime(ValueMixin):
     def timeZoneSecondsOffset(self, relative_to_utc=False):
         if self.mTZUTC:
             return 0
-        if self.mTZOffset is None:
+        # That of a floating time depends on the default timezone, which can change
+        if self.mTZOffset is None or self.floating():
             tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
             self.mTZOffset = tz.timeZoneSecondsOffset(self, relative_to_utc)
         return self.mTZOffset
-- 
2.43.0


From f4341e21f85e85eddb0c668ef2d806da2aa0db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 143/169] fix: a default timezone that is a fixed offset was
 taken for UTC

---
 src/pycalendar/timezone.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezone.py b/src/pycalendar/timezone.py
index 40a09f9..a1a7148 100644
--- a/src/pycalendar/timezone.py
+++ b/src/pycalendar/timezone.py
@@ -95,7 +95,8 @@ class Timezone(object):
         if self.mUTC:
             return 0
         elif self.mTimezone is None:
-            return TimezoneDatabase.getTimezoneOffsetSeconds(Timezone.sDefaultTimezone.getTimezoneID(), dt, relative_to_utc)
+            default = Timezone.sDefaultTimezone
+            return default.timeZoneSecondsOffset(dt, relative_to_utc) if default.hasTZID() else 0
         elif isinstance(self.mTimezone, int):
             return self.mTimezone
         else:
@@ -106,7 +107,8 @@ class Timezone(object):
         if self.mUTC:
             return "(UTC)"
         elif self.mTimezone is None:
-            return TimezoneDatabase.getTimezoneDescriptor(Timezone.sDefaultTimezone.getTimezoneID(), dt)
+            default = Timezone.sDefaultTimezone
+            return default.timeZoneDescriptor(dt) if default.hasTZID() else ""
         elif isinstance(self.mTimezone, int):
             sign = "-" if self.mTimezone < 0 else "+"
             hours = abs(self.mTimezone) / 3600
-- 
2.43.0


From ecea208e3fda9ef65f7de4b1887f46fa57f9007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 144/169] fix: an override with an RRULE was listed for periods
 it is not in

It was looked for by its rule, although it is one instance.
---
 src/pycalendar/icalendar/componentrecur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 2ca34b3..fec5e8a 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -455,8 +455,8 @@ class ComponentRecur(Component):
             results.append(ComponentExpanded(self, rid))
 
     def withinPeriod(self, period):
-        # Check for recurrence
-        if ((self.mRecurrences is not None) and self.mRecurrences.hasRecurrence()):
+        # Check for recurrence and True master
+        if ((self.mRecurrences is not None) and self.mRecurrences.hasRecurrence() and not self.isRecurrenceInstance()):
             items = []
             self.mRecurrences.expand(self.mStart, period, items)
             return len(items) != 0
-- 
2.43.0


From 852e6e84b2041dcf1363bb76ee829ac896aaffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 145/169] fix: instances did not print the first instance of
 most rules

---
 src/pycalendar/instances.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/instances.py b/src/pycalendar/instances.py
index 3a33ea3..ac622c4 100755
--- a/src/pycalendar/instances.py
+++ b/src/pycalendar/instances.py
@@ -18,6 +18,7 @@
 from __future__ import print_function
 from pycalendar.datetime import DateTime
 from pycalendar.icalendar.recurrence import Recurrence
+from pycalendar.icalendar.recurrenceset import RecurrenceSet
 from pycalendar.period import Period
 import sys
 
@@ -34,7 +35,11 @@ def instances(start, rrule):
     end.offsetYear(100)
     items = []
     range = Period(start, end)
-    recur.expand(start, range, items)
+
+    # The start is an instance too
+    recurs = RecurrenceSet()
+    recurs.addRule(recur)
+    recurs.expand(start, range, items)
     print("DTSTART:{}".format(start))
     print("RRULE:{}".format(rrule))
     print("Instances: {}".format(", ".join(map(str, items))))
-- 
2.43.0


From 45a96103ed935b8ed3bbb37f93519ed93c219626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 146/169] fix: tzverify reported zones as different for onsets
 without a change when one was at the start

---
 src/zonal/tzverify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/tzverify.py b/src/zonal/tzverify.py
index e5cce98..0cd1f3b 100755
--- a/src/zonal/tzverify.py
+++ b/src/zonal/tzverify.py
@@ -131,7 +131,7 @@ These cannot be checked.""" % (", ".join(sorted(missing)),)
         for i in set(d1):
             if i[0] == start:
                 d1.discard(i)
-                break
+                continue
             if i[2] == i[3]:
                 d1.discard(i)
         d2 = set2.difference(set1)
-- 
2.43.0


From 357ef32c867f7cef1b79cee941ee4fb80166db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 147/169] fix: a list of timezone changes had a single one at
 its end, which others leave out

---
 src/pycalendar/icalendar/vtimezoneelement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index b56fdde..7b073fe 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -161,7 +161,7 @@ class VTimezoneElement(Component):
 #            return ()
 
         # Look for recurrences
-        if self.mStart > end:
+        if self.mStart >= end:
             # Return nothing
             return ()
         elif not self.mRecurrences.hasRecurrence():
-- 
2.43.0


From 19ae1908672caf7280a72e60c66fe94fe89ec901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 148/169] fix: validator failed itself for data with a
 component in the wrong place

---
 src/pycalendar/validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/validator.py b/src/pycalendar/validator.py
index a4ffbf9..73105b7 100755
--- a/src/pycalendar/validator.py
+++ b/src/pycalendar/validator.py
@@ -39,12 +39,18 @@ def validate(fname):
         except ErrorBase as e:
             print("Failed to parse iCalendar: {}: {}".format(e.mReason, e.mData,))
             sys.exit(1)
+        except ValueError as e:
+            print("Failed to parse iCalendar: {}".format(e,))
+            sys.exit(1)
     elif data.upper().find("BEGIN:VCARD") != -1:
         try:
             cal = Card.parseText(data)
         except ErrorBase as e:
             print("Failed to parse vCard: {}: {}".format(e.mReason, e.mData,))
             sys.exit(1)
+        except ValueError as e:
+            print("Failed to parse vCard: {}".format(e,))
+            sys.exit(1)
     else:
         print("Failed to find valid iCalendar or vCard data")
         sys.exit(1)
-- 
2.43.0


From c2fc3d38f328e0f1b32a0c5fbf4ee49b67794840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 149/169] fix: components without a UID were written in a
 random order

---
 src/pycalendar/icalendar/component.py | 11 +++++------
 src/pycalendar/icalendar/valarm.py    |  3 +++
 src/pycalendar/icalendar/vtimezone.py |  3 +++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 4f3aa9f..dccbf21 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -75,16 +75,15 @@ class Component(ComponentBase):
         raise NotImplementedError
 
     def getMapKey(self):
-        if hasattr(self, "mMapKey"):
-            return self.mMapKey
-        elif self.mUID:
+        if self.mUID:
             return self.mUID
-        else:
+        elif not hasattr(self, "mMapKey"):
             self.mMapKey = str(uuid.uuid4())
-            return self.mMapKey
+        return self.mMapKey
 
     def getSortKey(self):
-        return self.getMapKey()
+        # Without a UID the map key is a random one, which must not decide the order
+        return self.getMapKey() if self.mUID else ""
 
     def getMasterKey(self):
         return self.mUID
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 718e4c7..7355b3f 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -391,6 +391,9 @@ class VAlarm(Component):
         trigger = self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy
         return "%s:%s" % (self.mAction, trigger.getText(),)
 
+    def getSortKey(self):
+        return self.getMapKey()
+
     def added(self):
         # Added to calendar so add to calendar notifier
         # calstore::CCalendarNotifier::sCalendarNotifier.AddAlarm(this)
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index d5da291..250b071 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -68,6 +68,9 @@ class VTimezone(Component):
     def getMapKey(self):
         return self.mID
 
+    def getSortKey(self):
+        return self.getMapKey()
+
     def finalise(self):
         # Get TZID
         temp = self.loadValueString(definitions.cICalProperty_TZID)
-- 
2.43.0


From 4a76d411f3157ac10ba395ffdfdbcba9a18d3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 150/169] fix: comparing a single value and a list of values of
 the same type failed

---
 src/pycalendar/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/value.py b/src/pycalendar/value.py
index d801eed..2eca082 100644
--- a/src/pycalendar/value.py
+++ b/src/pycalendar/value.py
@@ -62,7 +62,8 @@ class Value(ValueMixin):
     def __eq__(self, other):
         if not isinstance(other, Value):
             return False
-        return self.getType() == other.getType() and self.getValue() == other.getValue()
+        # A single value and a list of values are not the same, whatever the type of the values
+        return self.getType() == other.getType() and self.getRealType() == other.getRealType() and self.getValue() == other.getValue()
 
     @classmethod
     def registerType(clz, type, cls, xmlNode, jsonNode=None):
-- 
2.43.0


From a33321cfe9f54a8db71b9460115c80522618fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 151/169] fix: a property made from a single value differed
 from the same property read

---
 src/pycalendar/icalendar/property.py | 2 ++
 src/pycalendar/property.py           | 9 +++++++++
 src/pycalendar/vcard/property.py     | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 8781723..b1f39c8 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -230,6 +230,8 @@ class Property(PropertyBase):
         elif isinstance(value, UTCOffsetValue):
             self._init_attr_value_utcoffset(value)
 
+        self._checkMultiValue()
+
     def duplicate(self):
         other = Property(self.mName)
         for attrname, attrs in self.mParameters.items():
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index d65dd6d..1cd3647 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -144,6 +144,15 @@ class PropertyBase(object):
         if attr.upper() in self.mParameters:
             del self.mParameters[attr.upper()]
 
+    def _checkMultiValue(self):
+        """
+        A property that can have several values always has a list of values, as when it is read.
+        """
+        if self.mValue is not None and self.mName.upper() in self.sMultiValues and not isinstance(self.mValue, MultiValue):
+            values = MultiValue(self.mValue.getType())
+            values.addValue(self.mValue)
+            self.mValue = values
+
     def getValue(self):
         return self.mValue
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 1c81be8..62af3e2 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -179,6 +179,8 @@ class Property(PropertyBase):
         elif isinstance(value, UTCOffsetValue):
             self._init_attr_value_utcoffset(value)
 
+        self._checkMultiValue()
+
     def duplicate(self):
         other = Property(self.mGroup, self.mName)
         for attrname, attrs in self.mParameters.items():
-- 
2.43.0


From 520f9b4bb9ec0492f778322695f2d119254a3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 152/169] fix: a vCard property made from unicode text had no
 value

---
 src/pycalendar/vcard/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 62af3e2..8a77b82 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -155,6 +155,10 @@ class Property(PropertyBase):
         if isinstance(value, int):
             self._init_attr_value_int(value)
 
+        elif isinstance(value, unicode):
+            value = value.encode("utf-8")
+            self._init_attr_value_text(value, valuetype if valuetype else self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_TEXT))
+
         elif isinstance(value, str):
             self._init_attr_value_text(value, valuetype if valuetype else self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_TEXT))
 
-- 
2.43.0


From bfde7018282d11289c0aeb9a13896d8f1ad2a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 153/169] fix: making a new UID failed

---
 src/pycalendar/stringutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..e0baa32 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -99,4 +99,4 @@ def compareStringsSafe(s1, s2):
 
 
 def md5digest(txt):
-    return md5.new(txt).hexdigest()
+    return md5(txt).hexdigest()
-- 
2.43.0


From beac8b0b268319fbca829adb960709ee02d110d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 154/169] fix: the VALUE of a GEO or REQUEST-STATUS of another
 type was not written

---
 src/pycalendar/property.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 1cd3647..c37ff4c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -615,10 +615,10 @@ class PropertyBase(object):
         # then always add VALUE if it is not TEXT. Always add the value if listed in the
         # C{sAlwaysValueTypes} attribute.
         default_type = self.sDefaultValueTypeMap.get(self.mName.upper())
-        if self.mName.upper() in self.sSpecialVariants:
+        actual_type = self.mValue.getType()
+        if actual_type == self.sSpecialVariants.get(self.mName.upper()):
+            # A special has no type of its own in the text
             actual_type = default_type
-        else:
-            actual_type = self.mValue.getType()
         if default_type is None or default_type != actual_type or self.mName.upper() in self.sAlwaysValueTypes:
             actual_value = self.sTypeValueMap.get(actual_type)
             if actual_value is not None and (default_type is not None or actual_type != Value.VALUETYPE_TEXT):
-- 
2.43.0


From 56415a345ecbc14848d7aa562f95f5d71f51b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 155/169] fix: rules differing only in a limit not in use
 compared unequal

---
 src/pycalendar/icalendar/recurrence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f5dbe92..82197d0 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -173,9 +173,9 @@ class Recurrence(ValueMixin):
         return hash((
             self.mFreq,
             self.mUseCount,
-            self.mCount,
+            self.mCount if self.mUseCount else None,
             self.mUseUntil,
-            self.mUntil,
+            self.mUntil if self.mUseUntil else None,
             self.mInterval,
             tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
             tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
@@ -200,8 +200,8 @@ class Recurrence(ValueMixin):
     def equals(self, comp):
         return (
             (self.mFreq == comp.mFreq) and
-            (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (self.mUntil == comp.mUntil) and
+            (self.mUseCount == comp.mUseCount) and (not self.mUseCount or self.mCount == comp.mCount) and
+            (self.mUseUntil == comp.mUseUntil) and (not self.mUseUntil or self.mUntil == comp.mUntil) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
-- 
2.43.0


From 48645eb5fdfb860363ca517b964140e32236b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 156/169] fix: rules with UNTIL as a date and as a time on that
 day compared equal

---
 src/pycalendar/icalendar/recurrence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 82197d0..d04a175 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -175,7 +175,7 @@ class Recurrence(ValueMixin):
             self.mUseCount,
             self.mCount if self.mUseCount else None,
             self.mUseUntil,
-            self.mUntil if self.mUseUntil else None,
+            self._untilText(),
             self.mInterval,
             tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
             tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
@@ -201,7 +201,7 @@ class Recurrence(ValueMixin):
         return (
             (self.mFreq == comp.mFreq) and
             (self.mUseCount == comp.mUseCount) and (not self.mUseCount or self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (not self.mUseUntil or self.mUntil == comp.mUntil) and
+            (self.mUseUntil == comp.mUseUntil) and (self._untilText() == comp._untilText()) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
@@ -215,6 +215,10 @@ class Recurrence(ValueMixin):
             (self.mWeekstart == comp.mWeekstart)
         )
 
+    def _untilText(self):
+        # A date, a floating time and one in UTC are different limits even when they compare equal
+        return self.mUntil.getText() if self.mUseUntil and self.mUntil is not None else None
+
     def equalsNum(self, items1, items2):
         # Check sizes first
         if items1 is None:
-- 
2.43.0


From 0017432c777497b1352d76fb313d82d961c8ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 157/169] fix: properties with a floating time and the same
 time in UTC compared equal

---
 src/pycalendar/datetimevalue.py |  6 ++++++
 src/pycalendar/periodvalue.py   | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/pycalendar/datetimevalue.py b/src/pycalendar/datetimevalue.py
index cd502f8..09d14a9 100644
--- a/src/pycalendar/datetimevalue.py
+++ b/src/pycalendar/datetimevalue.py
@@ -25,6 +25,12 @@ class DateTimeValue(WrapperValue, Value):
     _wrappedClass = DateTime
     _wrappedType = None  # Depends on actual value
 
+    __hash__ = Value.__hash__
+
+    def __eq__(self, other):
+        # Floating and zoned times compare equal when they read the same, but as values they differ
+        return super(DateTimeValue, self).__eq__(other) and self.mValue.floating() == other.mValue.floating()
+
     def getType(self):
         return (Value.VALUETYPE_DATETIME, Value.VALUETYPE_DATE)[self.mValue.isDateOnly()]
 
diff --git a/src/pycalendar/periodvalue.py b/src/pycalendar/periodvalue.py
index 99bd447..b4cd4c8 100644
--- a/src/pycalendar/periodvalue.py
+++ b/src/pycalendar/periodvalue.py
@@ -25,4 +25,14 @@ class PeriodValue(WrapperValue, Value):
     _wrappedClass = Period
     _wrappedType = Value.VALUETYPE_PERIOD
 
+    __hash__ = Value.__hash__
+
+    def __eq__(self, other):
+        # Floating and zoned times compare equal when they read the same, but as values they differ
+        return (
+            super(PeriodValue, self).__eq__(other) and
+            self.mValue.getStart().floating() == other.mValue.getStart().floating() and
+            self.mValue.getEnd().floating() == other.mValue.getEnd().floating()
+        )
+
 Value.registerType(Value.VALUETYPE_PERIOD, PeriodValue, xmldefinitions.value_period)
-- 
2.43.0


From 8bf7b80b85d2b80a41f2410eb8f8dcb2ef1ccaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 158/169] fix: writing a property with a redundant VALUE made
 it unequal to its copies

---
 src/pycalendar/icalendar/property.py | 5 +++--
 src/pycalendar/property.py           | 9 +++++++++
 src/pycalendar/vcard/property.py     | 5 +++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index b1f39c8..0cbb139 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -241,16 +241,17 @@ class Property(PropertyBase):
         return other
 
     def __hash__(self):
+        parameters = self.comparableParameters()
         return hash((
             self.mName,
-            tuple([tuple(self.mParameters[attrname]) for attrname in sorted(self.mParameters.keys())]),
+            tuple([tuple(parameters[attrname]) for attrname in sorted(parameters.keys())]),
             self.mValue,
         ))
 
     def __eq__(self, other):
         if not isinstance(other, Property):
             return False
-        return self.mName == other.mName and self.mValue == other.mValue and self.mParameters == other.mParameters
+        return self.mName == other.mName and self.mValue == other.mValue and self.comparableParameters() == other.comparableParameters()
 
     def getRecurrenceValue(self):
 
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index c37ff4c..f6be6b0 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -599,6 +599,15 @@ class PropertyBase(object):
         # Special post-create for some types
         self._postCreateValue(value_type)
 
+    def comparableParameters(self):
+        """
+        The parameters that matter when comparing: VALUE only repeats what the value is, and comes and goes
+        as properties are written, unless the value is of unknown type.
+        """
+        if self.sValue not in self.mParameters or isinstance(self.mValue, UnknownValue):
+            return self.mParameters
+        return dict([(name, attrs) for name, attrs in self.mParameters.items() if name != self.sValue])
+
     def setupValueParameter(self):
         # The parameter is all there is to tell the type of a value of unknown type
         if isinstance(self.mValue, UnknownValue):
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 8a77b82..2d0e177 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -194,10 +194,11 @@ class Property(PropertyBase):
         return other
 
     def __hash__(self):
+        parameters = self.comparableParameters()
         return hash((
             self.mGroup,
             self.mName,
-            tuple([tuple(self.mParameters[attrname]) for attrname in sorted(self.mParameters.keys())]),
+            tuple([tuple(parameters[attrname]) for attrname in sorted(parameters.keys())]),
             self.mValue,
         ))
 
@@ -208,7 +209,7 @@ class Property(PropertyBase):
             self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
-            self.mParameters == other.mParameters
+            self.comparableParameters() == other.comparableParameters()
         )
 
     def parseTextParameters(self, txt, data):
-- 
2.43.0


From 7063d7c009aa206e13d69ef5351d9059fb12a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 159/169] fix: of a repeated parameter only the last was
 written to jCal

---
 src/pycalendar/parameter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index f58d912..5bd55a8 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -116,4 +116,10 @@ class Parameter(object):
             text.text = xmlutils.makeText(value)
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        # There can be only one of a name there, so a repeated parameter becomes one with several values
+        name = self.getName().lower()
+        values = self.mValues
+        if name in jobject:
+            previous = jobject[name]
+            values = (previous if isinstance(previous, list) else [previous]) + values
+        jobject[name] = values if len(values) != 1 else values[0]
-- 
2.43.0


From af0d832429525ba7fec05909ba6a1bd63683e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 160/169] fix: != of equal names and addresses was true

---
 src/pycalendar/vcard/adr.py | 5 ++++-
 src/pycalendar/vcard/n.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index fff754b..47774d5 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -48,8 +48,11 @@ class Adr(ValueMixin):
     def __repr__(self):
         return "ADR %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
-        return self.mValue == comp.mValue
+        return isinstance(comp, Adr) and self.mValue == comp.mValue
 
     def getPobox(self):
         return self.mValue[Adr.POBOX]
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 463560c..8129670 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -46,8 +46,11 @@ class N(ValueMixin):
     def __repr__(self):
         return "N %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
-        return self.mValue == comp.mValue
+        return isinstance(comp, N) and self.mValue == comp.mValue
 
     def getFirst(self):
         return self.mValue[N.FIRST]
-- 
2.43.0


From e6179302ea4a3ea2e81092650aab45bc493f652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 161/169] fix: an instance's RECURRENCE-ID was changed with its
 start

---
 src/pycalendar/icalendar/calendar.py       | 2 +-
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 2c75104..9d11721 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -410,7 +410,7 @@ class Calendar(ContainerBase):
                 prop = Property(propname, newdtstartValue + (dtend - dtstart))
                 newcomp.addProperty(prop)
 
-        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
+        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue.duplicate()))
 
         # After creating/changing a component we need to do this to keep PyCalendar happy
         newcomp.finalise()
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index fec5e8a..2ba840f 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -643,7 +643,7 @@ class ComponentRecur(Component):
             # i.e. the start time of this instance has not changed - something
             # else has
             if not self.hasProperty(definitions.cICalProperty_DTSTART):
-                self.mStart = self.mRecurrenceID
+                self.mStart = self.mRecurrenceID.duplicate()
 
             # If this component does not have its own end/duration property,
             # the determine
-- 
2.43.0


From 229b56659496dbb3fb09bb1b38ee9a9e25746b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 162/169] fix: components given the same values to edit changed
 together

---
 src/pycalendar/icalendar/componentrecur.py | 13 +++++++++++--
 src/pycalendar/icalendar/valarm.py         | 12 ++++++------
 src/pycalendar/icalendar/vfreebusy.py      |  6 ++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 2ba840f..5a3adc1 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -502,11 +502,13 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
     def editTimingDue(self, due):
+        due = due.duplicate()
+
         # Updated cached values
         self.mHasStart = False
         self.mHasEnd = True
         self.mDuration = False
-        self.mStart = due
+        self.mStart = due.duplicate()
         self.mEnd = due
 
         # Remove existing DUE & DTSTART & DTEND & DURATION items
@@ -520,6 +522,9 @@ class ComponentRecur(Component):
         self.addProperty(prop)
 
     def editTimingStartEnd(self, start, end):
+        start = start.duplicate()
+        end = end.duplicate()
+
         # Updated cached values
         self.mHasStart = self.mHasEnd = True
         self.mStart = start
@@ -544,6 +549,9 @@ class ComponentRecur(Component):
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
+        start = start.duplicate()
+        duration = duration.duplicate()
+
         # Updated cached values
         self.mHasStart = True
         self.mHasEnd = False
@@ -572,7 +580,7 @@ class ComponentRecur(Component):
             self.mRecurrences = RecurrenceSet()
 
         # Updated cached values
-        self.mRecurrences = recurs
+        self.mRecurrences = recurs.duplicate()
 
         # Remove existing RRULE, EXRULE, RDATE & EXDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
@@ -603,6 +611,7 @@ class ComponentRecur(Component):
             return
 
         # Add to recurrence set and clear cache
+        start = start.duplicate()
         self.mRecurrences.subtractDT(start)
 
         # Add property
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 7355b3f..23d8985 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -555,10 +555,10 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mTriggerAbsolute = True
-        self.mTriggerOn = dt
+        self.mTriggerOn = dt.duplicate()
 
         # Add new
-        prop = Property(definitions.cICalProperty_TRIGGER, dt)
+        prop = Property(definitions.cICalProperty_TRIGGER, self.mTriggerOn)
         self.addProperty(prop)
 
     def editTriggerBy(self, duration, trigger_start):
@@ -567,11 +567,11 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mTriggerAbsolute = False
-        self.mTriggerBy = duration
+        self.mTriggerBy = duration.duplicate()
         self.mTriggerOnStart = trigger_start
 
         # Add new (with parameter)
-        prop = Property(definitions.cICalProperty_TRIGGER, duration)
+        prop = Property(definitions.cICalProperty_TRIGGER, self.mTriggerBy)
         attr = Parameter(
             definitions.cICalParameter_RELATED,
             (
@@ -589,12 +589,12 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mRepeats = repeat
-        self.mRepeatInterval = interval
+        self.mRepeatInterval = interval.duplicate() if interval is not None else None
 
         # Add new
         if self.mRepeats > 0:
             self.addProperty(Property(definitions.cICalProperty_REPEAT, repeat))
-            self.addProperty(Property(definitions.cICalProperty_DURATION, interval))
+            self.addProperty(Property(definitions.cICalProperty_DURATION, self.mRepeatInterval))
 
     def getAlarmStatus(self):
         return self.mAlarmStatus
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index ae3451a..24fb4ce 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -156,6 +156,9 @@ class VFreeBusy(Component):
         self.removeProperties(definitions.cICalProperty_DURATION)
 
     def editTimingStartEnd(self, start, end):
+        start = start.duplicate()
+        end = end.duplicate()
+
         # Updated cached values
         self.mHasStart = self.mHasEnd = True
         self.mStart = start
@@ -180,6 +183,9 @@ class VFreeBusy(Component):
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
+        start = start.duplicate()
+        duration = duration.duplicate()
+
         # Updated cached values
         self.mHasStart = True
         self.mHasEnd = False
-- 
2.43.0


From 7c197a9414a7856189e113cdd3f54a9d00dc3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 163/169] fix: ending a recurrence failed when it had not been
 expanded before

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 src/pycalendar/icalendar/recurrence.py     | 5 +++--
 src/pycalendar/icalendar/recurrenceset.py  | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 5a3adc1..4dd0aad 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -624,7 +624,7 @@ class ComponentRecur(Component):
             return
 
         # Adjust RRULES to end before start
-        self.mRecurrences.excludeFutureRecurrence(start)
+        self.mRecurrences.excludeFutureRecurrence(start, self.mStart)
 
         # Remove existing RRULE & RDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index d04a175..cf97290 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1059,9 +1059,10 @@ class Recurrence(ValueMixin):
     # the recurrence data should be cached
 
     # Exclude dates on or after the chosen one
-    def excludeFutureRecurrence(self, exclude):
+    def excludeFutureRecurrence(self, exclude, start=None):
         # Expand the rule up to the exclude date
-        start = self.mCacheStart
+        if start is None:
+            start = self.mCacheStart
         items = []
         period = Period(start, exclude)
         self.expand(start, period, items)
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 9ce8fec..e0d6986 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -236,10 +236,10 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.clear()
 
-    def excludeFutureRecurrence(self, exclude):
+    def excludeFutureRecurrence(self, exclude, start=None):
         # Adjust RRULES to end before start
         for iter in self.mRrules:
-            iter.excludeFutureRecurrence(exclude)
+            iter.excludeFutureRecurrence(exclude, start)
 
         # Remove RDATES on or after start
         self.mRdates = [iter for iter in self.mRdates if iter < exclude]
-- 
2.43.0


From 9b30065a3a3193dda7efe9e480365ce8027453b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 164/169] fix: copies of an e-mail alarm shared its attendees,
 and none failed

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 23d8985..8991f66 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -179,7 +179,7 @@ class VAlarm(Component):
             super(VAlarm.VAlarmEmail, self).__init__(type=definitions.eAction_VAlarm_Email)
             self.mDescription = description
             self.mSummary = summary
-            self.mAttendees = attendees
+            self.mAttendees = list(attendees) if attendees is not None else []
 
         def duplicate(self):
             return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees)
-- 
2.43.0


From a3ba16a0e04cfca151d7f666bb0a24d5c5e6a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:07 +0000
Subject: [PATCH 165/169] fix: adjusting a period with a duration to UTC
 changed its end

---
 src/pycalendar/period.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 13db0ac..9a2536a 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -182,8 +182,12 @@ class Period(ValueMixin):
         return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)
 
     def adjustToUTC(self):
+        # The end is found first, as a day is not always as long in the timezone of the start
+        end = self.getEnd()
         self.mStart.adjustToUTC()
-        self.getEnd().adjustToUTC()
+        end.adjustToUTC()
+        if self.mDuration is not None and self.mStart + self.mDuration != end:
+            self.mDuration = end - self.mStart
 
     def describeDuration(self):
         return ""
-- 
2.43.0


From 89b2e42bb75c2b0cb5931740fe5d43bcfc8fdfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:21 +0000
Subject: [PATCH 166/169] fix: removing a component or property removed another
 equal to it

---
 src/pycalendar/componentbase.py      | 14 ++++++++++++--
 src/pycalendar/icalendar/calendar.py |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 32b7094..4302331 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -133,8 +133,18 @@ class ComponentBase(object):
     def countComponents(self, compname):
         return len(self.getComponents(compname))
 
+    @staticmethod
+    def _removeItem(items, item):
+        # The very item, unless only one equal to it is there
+        for index, other in enumerate(items):
+            if other is item:
+                del items[index]
+                break
+        else:
+            items.remove(item)
+
     def removeComponent(self, component):
-        self.mComponents.remove(component)
+        self._removeItem(self.mComponents, component)
 
     def removeAllComponent(self, compname=None):
         if compname:
@@ -180,7 +190,7 @@ class ComponentBase(object):
 
     def removeProperty(self, prop):
         if prop.getName().upper() in self.mProperties:
-            self.mProperties[prop.getName().upper()].remove(prop)
+            self._removeItem(self.mProperties[prop.getName().upper()], prop)
             if len(self.mProperties[prop.getName().upper()]) == 0:
                 del self.mProperties[prop.getName().upper()]
 
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 9d11721..f6cdc05 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -353,7 +353,7 @@ class Calendar(ContainerBase):
             uid = component.getUID()
             rid = component.getRecurrenceID()
             if rid:
-                self.mOverriddenComponentsByUID[uid].remove(component)
+                self._removeItem(self.mOverriddenComponentsByUID[uid], component)
             else:
                 masters = self.mMasterComponentsByTypeAndUID[component.getType()]
                 if uid in masters:
-- 
2.43.0


From d4e2f3536e592e86463bf595f7c2ae736adacf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:29 +0000
Subject: [PATCH 167/169] fix: a property made of a period lost its time zone

---
 src/pycalendar/icalendar/property.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 0cbb139..633c89e 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -354,6 +354,13 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if not pe.getStart().isDateOnly() and pe.getStart().local():
+            if definitions.cICalParameter_TZID in self.mParameters:
+                del self.mParameters[definitions.cICalParameter_TZID]
+            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
+                Parameter(name=definitions.cICalParameter_TZID, value=pe.getStart().getTimezoneID()))
+
     def _init_attr_value_recur(self, recur):
         # Value
         self.mValue = RecurrenceValue(value=recur)
-- 
2.43.0


From c9ae18e4c3a716bede972607f459acf1191a356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:32 +0000
Subject: [PATCH 168/169] fix: periods excluded were lost when a recurrence set
 was edited

---
 src/pycalendar/icalendar/componentrecur.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 4dd0aad..e2e2419 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -604,6 +604,9 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getExdates():
             prop = Property(definitions.cICalProperty_EXDATE, iter)
             self.addProperty(prop)
+        for iter in self.mRecurrences.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
+            self.addProperty(prop)
 
     def excludeRecurrence(self, start):
         # Must have items
-- 
2.43.0


From bf246544b546465df48eb3d351f5c3881e4cca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:48 +0000
Subject: [PATCH 169/169] fix: an event of no length was not listed over a
 period that begins at its start

---
 src/pycalendar/icalendar/componentrecur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index e2e2419..a1abb1f 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -461,12 +461,12 @@ class ComponentRecur(Component):
             self.mRecurrences.expand(self.mStart, period, items)
             return len(items) != 0
         else:
-            # Does event span the period (assume self.mEnd > self.mStart)
+            # Does event span the period, or start in it (it may have no length)
             # Check start (inclusive) and end (exclusive)
-            if self.mEnd <= period.getStart() or self.mStart >= period.getEnd():
+            if self.mStart >= period.getEnd():
                 return False
             else:
-                return True
+                return self.mStart >= period.getStart() or self.mEnd > period.getStart()
 
     def changedRecurrence(self):
         # Clear cached values
-- 
2.43.0

