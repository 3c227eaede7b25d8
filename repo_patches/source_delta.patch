From 58bf7b5f15e6cd34b557c65fb74324439bc412f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 01/46] fix: prp-key compares every key property, including the
 last one

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..0abd84a 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From 956abaeb4a7898183537c7a6ad17a97281aa333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 02/46] fix: eq-diff2/3 check the last member of the list too

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 0abd84a..e7fff4b 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,7 +424,7 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
                         if (
                             (zi, OWL.sameAs, zj) in self.graph
-- 
2.43.0


From 6c55938281d269e7d126291988d793550bd092ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 03/46] fix: prp-adp checks the last property of the list too

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e7fff4b..f288010 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From 56ed0aa5272123d13b621bfa8f94c8353c8e8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 04/46] fix: cls-com names the offending individual in its
 message

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f288010..e465efb 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -687,7 +687,7 @@ class OWLRL_Semantics(Core):
                 if (x1, RDF.type, c2) in self.graph:
                     self.add_error(
                         "Violation of complementarity for classes %s and %s on element %s"
-                        % (c1, c2, x)
+                        % (c1, c2, x1)
                     )
 
         # RULES cls-svf1 and cls=svf2
-- 
2.43.0


From 6bee9c59f3d529d5199170e6346f94b049cef268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 05/46] fix: maximum cardinalities whose value is not a literal
 do not stop the expansion

---
 owlrl/OWLRL.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e465efb..726bc5c 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -733,7 +733,8 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            value = x.value if isinstance(x, rdflib.Literal) else None
+            if value == 0:
                 # RULE cls-maxc1
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y in self.graph.subject_objects(pp):
@@ -743,7 +744,7 @@ class OWLRL_Semantics(Core):
                                 "Erroneous usage of maximum cardinality with %s and %s"
                                 % (xx, y)
                             )
-            elif x.value == 1:
+            elif value == 1:
                 # RULE cls-maxc2
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for u, y1 in self.graph.subject_objects(pp):
@@ -760,7 +761,8 @@ class OWLRL_Semantics(Core):
             # The construct should lead to an integer. Something may go wrong along the line
             # leading to an exception...
             xx = c
-            if x.value == 0:
+            value = x.value if isinstance(x, rdflib.Literal) else None
+            if value == 0:
                 # RULES cls-maxqc1 and cls-maxqc2 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
@@ -773,7 +775,7 @@ class OWLRL_Semantics(Core):
                                     "Erroneous usage of maximum qualified cardinality with %s, %s and %s"
                                     % (xx, cc, y)
                                 )
-            elif x.value == 1:
+            elif value == 1:
                 # RULE cls-maxqc3 and cls-maxqc4 folded in one
                 for pp in self.graph.objects(xx, OWL.onProperty):
                     for cc in self.graph.objects(xx, OWL.onClass):
-- 
2.43.0


From 46a19bae40aab16fd569a6773f90a3637fb25069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 06/46] fix: sameAs with a typed node hands on the datatypes of
 that node, not the node

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 726bc5c..b2670f0 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -185,7 +185,7 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _append_to_explicit(s, o):
-            explicit[s].add(o)
+            explicit[s].update(explicit[o])
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-- 
2.43.0


From 7a0dc3b385ae640a6dfc073dc6f7f9c5bab8fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 07/46] fix: rdfs4a and rdfs4b also apply to terms that appear
 in later cycles

---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..5bfc2f6 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From dd5e4ed910c1e1cff22bd916e0698ab7e02f92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 08/46] fix: boolean literals are case sensitive

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..e020912 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -105,9 +105,9 @@ def _strToBool(v):
     @return corresponding boolean value
     @raise ValueError: invalid boolean values
     """
-    if v.lower() == "true" or v.lower() == "1":
+    if v == "true" or v == "1":
         return True
-    elif v.lower() == "false" or v.lower() == "0":
+    elif v == "false" or v == "0":
         return False
     else:
         raise ValueError("Invalid boolean literal value %s" % v)
-- 
2.43.0


From 3cfbd64ba7e7ee29410c021f17b54c192f3d47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 09/46] fix: decimal literals follow the XSD lexical rule and
 malformed ones raise ValueError

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index e020912..17ee3c9 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -125,8 +125,8 @@ def _strToDecimal(v):
     @raise ValueError: invalid decimal value
     """
     # check whether the lexical form of 'v' is o.k.
-    if v.find("E") != -1 or v.find("e") != -1:
-        # this is an invalid lexical form, though would be accepted by Python
+    if re.fullmatch(r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", v) is None:
+        # this is an invalid lexical form, though some would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
         return Decimal(v)
-- 
2.43.0


From 3f77042268dc46273a51e535ce3fd3f662e5ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 10/46] fix: double and float accept zero, INF and NaN, and
 only XSD lexical forms

---
 owlrl/DatatypeHandling.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 17ee3c9..26744c8 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -263,6 +263,12 @@ def _strToBoundNumeral(v, interval, conversion):
 
 
 # Double and float ##################################################
+# lexical forms of doubles and floats
+_re_double = (
+    r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+\-]?[0-9]+)?|[+\-]?INF|NaN"
+)
+
+
 # noinspection PyPep8Naming
 def _strToDouble(v):
     """Test and convert a double value into a Decimal or float. Raises an exception if the number is outside the
@@ -275,7 +281,11 @@ def _strToDouble(v):
     @raise ValueError: invalid value
     """
     try:
+        if re.fullmatch(_re_double, v) is None:
+            raise ValueError("Invalid double %s" % v)
         value = Decimal(v)
+        if not value.is_finite() or value.is_zero():
+            return value
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
         if lower < abs(value) < upper:
@@ -298,7 +308,11 @@ def _strToFloat(v):
     @raise ValueError: invalid value
     """
     try:
+        if re.fullmatch(_re_double, v) is None:
+            raise ValueError("Invalid float %s" % v)
         value = Decimal(v)
+        if not value.is_finite() or value.is_zero():
+            return value
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
         if lower < abs(value) < upper:
-- 
2.43.0


From 7890fa7809532dbde22210ca6b5e5df16ec4e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 11/46] fix: hexBinary accepts pairs of hexadecimal digits only
 and denotes octets

---
 owlrl/DatatypeHandling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 26744c8..2c8d568 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -330,14 +330,13 @@ def _strToFloat(v):
 def _strToHexBinary(v):
     """Test (and convert) hexa integer values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return the octets
     @raise ValueError: invalid value
     """
     # first of all, the number of characters must be even according to the xsd spec:
-    length = len(v)
-    if (length / 2) * 2 != length:
+    if re.fullmatch("([0-9a-fA-F]{2})*", v) is None:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
+    return bytes.fromhex(v)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From f0bdd1afc63fa73f910e33bbc98bb965a8d4bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 12/46] fix: integer literals follow the XSD lexical rule

---
 owlrl/DatatypeHandling.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 2c8d568..e98c728 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -243,6 +243,18 @@ _limits_nonNegativeInteger = [-1, None]
 _limits_negativeInteger = [None, 0]
 
 
+# noinspection PyPep8Naming
+def _strToInteger(v):
+    """Test (and convert) an integer; Python's conversion is lax about white space, underscores and other digits.
+    @param v: the literal string to be converted
+    @return int
+    @raise ValueError: invalid value
+    """
+    if re.fullmatch(r"[+\-]?[0-9]+", v) is None:
+        raise ValueError("Invalid numerical value %s" % v)
+    return int(v)
+
+
 # noinspection PyPep8Naming,PyBroadException
 def _strToBoundNumeral(v, interval, conversion):
     """Test (and convert) a generic numerical type, with a check against a lower and upper limit.
@@ -659,27 +671,27 @@ AltXSDToPYTHON = {
     XSD.base64Binary: _strToBase64Binary,
     XSD.double: _strToDouble,
     XSD.float: _strToFloat,
-    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, int),
-    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, int),
-    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, int),
-    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, int),
+    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, _strToInteger),
+    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, _strToInteger),
+    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, _strToInteger),
+    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, _strToInteger),
     XSD.nonPositiveInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonPositiveInteger, int
+        v, _limits_nonPositiveInteger, _strToInteger
     ),
-    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, int),
+    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, _strToInteger),
     XSD.nonNegativeInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonNegativeInteger, int
+        v, _limits_nonNegativeInteger, _strToInteger
     ),
-    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, int),
-    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, int),
-    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, int),
-    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, int),
-    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, int),
+    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, _strToInteger),
+    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, _strToInteger),
+    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, _strToInteger),
+    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, _strToInteger),
+    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, _strToInteger),
     XSD.hexBinary: _strToHexBinary,
     XSD.dateTime: lambda v: _strToDateTimeAndStamp(v, False),
     XSD.dateTimeStamp: lambda v: _strToDateTimeAndStamp(v, True),
     RDF.XMLLiteral: _strToXMLLiteral,
-    XSD.integer: int,
+    XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
     XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
-- 
2.43.0


From b7176ee0b9d2bbe57dbe8bcbe541065c854d0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 13/46] fix: time zone offsets keep their sign and size, and
 the empty string is no IndexError

---
 owlrl/DatatypeHandling.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index e98c728..8279a77 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -78,20 +78,21 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v[-1:] == "Z":
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
-        pattern = r".*(\+|-)([0-9][0-9]):([0-9][0-9])"
-        match = re.match(pattern, incoming_v)
+        pattern = r".*(\+|-)(?=14:00|0[0-9]|1[0-3])([0-9][0-9]):([0-5][0-9])"
+        match = re.fullmatch(pattern, incoming_v, re.DOTALL)
         if match is None:
             v = incoming_v
             tzone = None
         else:
             hours = int(match.groups()[1])
-            if match.groups()[0] == "-":
-                hours = -hours - 1
             minutes = int(match.groups()[2])
+            if match.groups()[0] == "-":
+                hours = -hours
+                minutes = -minutes
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 3616d8a13691f70df36f37199d3b3b6f4ecfcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 14/46] fix: fractional seconds are fractions, and nothing may
 follow them

---
 owlrl/DatatypeHandling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8279a77..85f3775 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -373,13 +373,13 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v, re.DOTALL)
     if match is not None:
-        # we have a millisecond portion...
+        # we have a fractional portion, to be expressed in microseconds...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            milliseconds = int(match.groups()[2][:6].ljust(6, "0"))
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
@@ -427,13 +427,13 @@ def _strToTime(incoming_v):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
-    match = re.match(milpattern, v)
+    milpattern = r"(.*)(\.)([0-9]+)"
+    match = re.fullmatch(milpattern, v, re.DOTALL)
     if match is not None:
-        # we have a millisecond portion...
+        # we have a fractional portion, to be expressed in microseconds...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            milliseconds = int(match.groups()[2][:6].ljust(6, "0"))
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
-- 
2.43.0


From 91dbe5a9c7f6be2cfac6e7b2921e02283e0b9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 15/46] fix: date and time fields have a fixed number of
 digits, and 24:00:00 is allowed

---
 owlrl/DatatypeHandling.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 85f3775..0de3f45 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -386,7 +386,14 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
+        if re.fullmatch("[0-9]{4}(-[0-9]{2}){2}T[0-9]{2}(:[0-9]{2}){2}", final_v) is None:
+            raise ValueError("Invalid datetime %s" % incoming_v)
+        # 24:00:00 is the first instant of the next day
+        end_of_day = final_v.endswith("T24:00:00") and milliseconds == 0
+        if end_of_day:
+            final_v = final_v.replace("T24", "T00")
         tstr = time.strptime(final_v, "%Y-%m-%dT%H:%M:%S")
+        day = datetime.timedelta(days=1 if end_of_day else 0)
         if tzone is not None:
             return datetime.datetime(
                 tstr.tm_year,
@@ -397,7 +404,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_sec,
                 milliseconds,
                 tzone,
-            )
+            ) + day
         else:
             return datetime.datetime(
                 tstr.tm_year,
@@ -407,7 +414,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
                 tstr.tm_min,
                 tstr.tm_sec,
                 milliseconds,
-            )
+            ) + day
     except:
         raise ValueError("Invalid datetime %s" % incoming_v)
 
@@ -440,6 +447,11 @@ def _strToTime(incoming_v):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
+        if re.fullmatch("[0-9]{2}(:[0-9]{2}){2}", final_v) is None:
+            raise ValueError("Invalid time %s" % incoming_v)
+        # 24:00:00 is the same as midnight
+        if final_v == "24:00:00" and milliseconds == 0:
+            final_v = "00:00:00"
         tstr = time.strptime(final_v, "%H:%M:%S")
         if tzone is not None:
             return datetime.time(
@@ -465,6 +477,8 @@ def _strToDate(incoming_v):
 
     # This may raise an exception...
     try:
+        if re.fullmatch("[0-9]{4}(-[0-9]{2}){2}", final_v) is None:
+            raise ValueError("Invalid date %s" % incoming_v)
         tstr = time.strptime(final_v, "%Y-%m-%d")
         return datetime.date(tstr.tm_year, tstr.tm_mon, tstr.tm_mday)
     except:
-- 
2.43.0


From 6da1d9bd48b78ad554d57e80bc40e284861422e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 16/46] fix: the empty string is a normalizedString

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 0de3f45..2181e1a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -619,7 +619,7 @@ def _strToVal_Regexp(v, regexp, flag=0, excludeStart=[]):
 
 
 # Disallowed characters in a token or a normalized string, as a regexp
-_re_token = "[^\n\t\r]+"
+_re_token = "[^\n\t\r]*"
 
 
 # noinspection PyPep8Naming
-- 
2.43.0


From aaa888f788fa0b8d494091772f6366642d3ff396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 17/46] fix: plain literals may contain line breaks

---
 owlrl/DatatypeHandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 2181e1a..7bcb1c1 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -652,7 +652,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.match(reg, v, re.DOTALL)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
-- 
2.43.0


From 27025d96f29d99714744e53b3fadcf952b85feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 18/46] fix: NMTOKEN is below token, not below Name

---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From dc123b362c552efbed513548d8f73578902b846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 19/46] fix: the datatype axioms declare nonNegativeInteger and
 negativeInteger

---
 owlrl/AxiomaticTriples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 5eeec22..40e00a4 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -141,10 +141,10 @@ RDFS_D_Axiomatic_Triples_subclasses = [
 RDFS_D_Axiomatic_Triples_types = [
     (XSD.integer, RDF.type, RDFS.Datatype),
     (XSD.decimal, RDF.type, RDFS.Datatype),
+    (XSD.nonNegativeInteger, RDF.type, RDFS.Datatype),
     (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.nonPositiveInteger, RDF.type, RDFS.Datatype),
-    (XSD.positiveInteger, RDF.type, RDFS.Datatype),
     (XSD.positiveInteger, RDF.type, RDFS.Datatype),
+    (XSD.negativeInteger, RDF.type, RDFS.Datatype),
     (XSD.long, RDF.type, RDFS.Datatype),
     (XSD.int, RDF.type, RDFS.Datatype),
     (XSD.short, RDF.type, RDFS.Datatype),
-- 
2.43.0


From 7b9a6bda6a063e0a59e8f9eda78cedf170dc389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 20/46] fix: restrictions without facet list do not take over
 the facets of another restriction

---
 owlrl/RestrictedDatatype.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..77bd359 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -213,7 +213,7 @@ def extract_faceted_datatypes(core, graph):
     retval = []
     for dtype in graph.subjects(RDF.type, RDFS.Datatype):
         base_type = None
-        facets = []
+        final_facets = []
         try:
             base_types = [x for x in graph.objects(dtype, OWL.onDatatype)]
             if len(base_types) > 0:
@@ -231,7 +231,6 @@ def extract_faceted_datatypes(core, graph):
                                 % dtype
                             )
                         elif len(rlists) > 0:
-                            final_facets = []
                             for r in graph.items(rlists[0]):
                                 for (facet, lit) in graph.predicate_objects(r):
                                     if isinstance(lit, rdflibLiteral):
-- 
2.43.0


From 34578529148de3bcfe5a4a315962720008f367de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 21/46] fix: error messages about restrictions are strings, as
 everywhere else

---
 owlrl/RestrictedDatatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 77bd359..2ee6daf 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -253,7 +253,7 @@ def extract_faceted_datatypes(core, graph):
                                                     )
                                                 )
                                         except Exception as msg:
-                                            core.add_error(msg)
+                                            core.add_error(str(msg))
                                             continue
                                 # We do have everything we need:
                             new_datatype = RestrictedDatatype(
@@ -266,7 +266,7 @@ def extract_faceted_datatypes(core, graph):
             # print sys.exc_type
             # print sys.exc_value
             # print sys.exc_traceback
-            core.add_error(msg)
+            core.add_error(str(msg))
             continue
     return retval
 
-- 
2.43.0


From 92af1db9e70e37eb4cbad3a44cddbe45695b5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 22/46] fix: rdf:langRange does not exist in RDFLib's RDF
 namespace; other facets are not lost

---
 owlrl/RestrictedDatatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 2ee6daf..976b200 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -58,10 +58,14 @@ import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
 from rdflib import Literal as rdflibLiteral
+from rdflib import URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# rdf:langRange is not a member of the (closed) RDF namespace of RDFLib
+_langRange = URIRef(str(RDF) + "langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -380,7 +384,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == _langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
-- 
2.43.0


From 56253637cb33369817f3c5dd74cc4c0d995036af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 23/46] fix: xsd:int and xsd:token may have facets

---
 owlrl/RestrictedDatatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 976b200..8dc76be 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -87,6 +87,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -104,6 +105,7 @@ Datatypes_per_facets = {
     LENGTH_AND_PATTERN: [
         XSD.anyURI,
         XSD.string,
+        XSD.token,
         XSD.NMTOKEN,
         XSD.Name,
         XSD.NCName,
-- 
2.43.0


From c0f722ba28ef36d727116035da9fbb24b894268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 24/46] fix: pattern facets constrain the whole value

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 8dc76be..6f50101 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -546,7 +546,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From 9131f6ba1863e2f85154c3a256530e3bf478f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 25/46] fix: pattern facets apply to plain literals

---
 owlrl/RestrictedDatatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 6f50101..b763a87 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -424,6 +424,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
-- 
2.43.0


From 2601c13f9b28170764682fc80e67f3eb2d9b6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 26/46] fix: every length facet counts, not only the last one

---
 owlrl/RestrictedDatatype.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index b763a87..56aefb0 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -337,8 +337,8 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         is around.
     :ivar maxLength: Value for the :code:`xsd:maxLength` facet, initialized to :code:`None` and set to the right value if a facet
         is around.
-    :ivar length: Value for the :code:`xsd:length` facet, initialized to :code:`None` and set to the right value if a facet is
-        around.
+    :ivar length: Array of values for the :code:`xsd:length` facet, initialized to :code:`[]` and extended for each such
+        facet.
     :ivar pattern: Array of patterns for the :code:`xsd:pattern` facet, initialized to :code:`[]` and set to the right value if a
         facet is around.
     :ivar langRange: Array of language ranges for the :code:`rdf:langRange` facet, initialized to :code:`[]` and set to the right
@@ -364,7 +364,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         self.maxExclusive = None
         self.minInclusive = None
         self.maxInclusive = None
-        self.length = None
+        self.length = []
         self.maxLength = None
         self.minLength = None
         self.pattern = []
@@ -389,7 +389,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             elif facet == _langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
-                self.length = value
+                self.length.append(value)
             elif facet == XSD.maxLength and (
                 self.maxLength is None or value < self.maxLength
             ):
@@ -531,10 +531,10 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             val = str(value)
         else:
             val = value
-        if self.length is not None:
-            return self.length == len(val)
-        else:
-            return True
+        for length in self.length:
+            if length != len(val):
+                return False
+        return True
 
     def _check_pattern(self, value):
         """
-- 
2.43.0


From 1c0757a1dadeda2033f3ee65fa73e9097987c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 27/46] fix: a value without language tag matches no language
 range, and needs none if there is no range

---
 owlrl/RestrictedDatatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 56aefb0..d6c1f07 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -560,8 +560,8 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         if isinstance(value, rdflibLiteral):
             lang = value.language
         else:
-            return False
+            lang = None
         for r in self.langRange:
-            if not _lang_range_check(r, lang):
+            if lang is None or not _lang_range_check(r, lang):
                 return False
         return True
-- 
2.43.0


From 0561becd017a45889ce1e5d8ba8c8b169086ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 28/46] fix: allValuesFrom checks literal values against
 restricted datatypes

---
 owlrl/OWLRLExtras.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..8ac7dfd 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -201,10 +201,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, rdflib.Literal):
+                        return rt.checkValue(AltXSDToPYTHON[v.datatype](str(v)))
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 75e26b33515837c917e04e2db5611932729477b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 29/46] fix: facets are checked on the value given by the
 improved conversion, whatever RDFLib's table holds

---
 owlrl/OWLRLExtras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 8ac7dfd..f51efc9 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -174,7 +174,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
+                        if rt.checkValue(AltXSDToPYTHON[lt.datatype](str(lt))):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
-- 
2.43.0


From 1479f18cca972c318943edb89d668d4ba0ee2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 30/46] fix: a facet that cannot be compared with a value makes
 the literal invalid, not the expansion fail

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index b2670f0..47ad8cf 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -225,7 +225,7 @@ class OWLRL_Semantics(Core):
             converter = AltXSDToPYTHON.get(lt.datatype, identity)
             try:
                 converter(str(lt))
-            except ValueError:
+            except Exception:
                 self.add_error(
                     "Lexical value of the literal '%s' does not match"
                     " its datatype (%s)" % (lt, lt.datatype)
-- 
2.43.0


From f11cd54bd9a2f0ae5ed932b4b42c31471d46e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 31/46] fix: datatypes added by an expansion stay within that
 expansion

---
 owlrl/CombinedClosure.py | 12 ++++++++++--
 owlrl/OWLRL.py           | 28 +++++++++++++++++++++-------
 owlrl/OWLRLExtras.py     | 18 +++++++++---------
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/owlrl/CombinedClosure.py b/owlrl/CombinedClosure.py
index 9ea95c9..5301db7 100755
--- a/owlrl/CombinedClosure.py
+++ b/owlrl/CombinedClosure.py
@@ -105,6 +105,7 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
         subsumption_dict=None,
         subsumption_key=None,
         subsumption_list=None,
+        conversion_dict=None,
     ):
         """
         If an extension wants to add new datatypes, this method should be invoked at initialization time.
@@ -126,6 +127,10 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
         :param subsumption_list: List of subsumptions associated to a subsumption key (ie, all datatypes that are
             superclasses of the new datatype).
         :type subsumption_list: list
+
+        :param conversion_dict: Dictionary of conversion functions (indexed by the datatype URI-s) that gets the new
+            function. If None, it is registered for the whole application.
+        :type conversion_dict: dict
         """
         from .DatatypeHandling import AltXSDToPYTHON, use_Alt_lexical_conversions
 
@@ -138,8 +143,11 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
             else:
                 subsumption_dict[uri] = subsumption_list
 
-        AltXSDToPYTHON[uri] = conversion_function
-        use_Alt_lexical_conversions()
+        if conversion_dict is not None:
+            conversion_dict[uri] = conversion_function
+        else:
+            AltXSDToPYTHON[uri] = conversion_function
+            use_Alt_lexical_conversions()
 
     def post_process(self):
         """
diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 47ad8cf..29c2c2e 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -31,7 +31,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
-from collections import defaultdict
+from collections import ChainMap, defaultdict
 from typing import Union
 
 import rdflib
@@ -114,6 +114,10 @@ class OWLRL_Semantics(Core):
         """
         Core.__init__(self, graph, axioms, daxioms, rdfs=rdfs, destination=destination)
         self.bnodes = []
+        # the datatypes known to this expansion; extensions may add to these without affecting other expansions
+        self.datatypes = list(OWL_RL_Datatypes)
+        self.datatype_subsumptions = ChainMap({}, OWL_Datatype_Subsumptions)
+        self.datatype_conversions = ChainMap({}, AltXSDToPYTHON)
 
     def _list(self, l):
         """
@@ -124,6 +128,14 @@ class OWLRL_Semantics(Core):
         """
         return [ch for ch in self.graph.items(l)]
 
+    def _known_datatypes(self):
+        """
+        All datatypes known to this expansion, including those added to the global list after its initialization.
+
+        @return: array of resources
+        """
+        return self.datatypes + [dt for dt in OWL_RL_Datatypes if dt not in self.datatypes]
+
     def post_process(self):
         """
         Remove triples with Bnode predicates. The Bnodes in the graph are collected in the first cycle run.
@@ -189,12 +201,14 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-            if dt in OWL_Datatype_Subsumptions:
-                for new_dt in OWL_Datatype_Subsumptions[dt]:
+            if dt in self.datatype_subsumptions:
+                for new_dt in self.datatype_subsumptions[dt]:
                     self.store_triple((r, RDF.type, new_dt))
                     self.store_triple((new_dt, RDF.type, RDFS.Datatype))
                     used_datatypes.add(new_dt)
 
+        datatypes = self._known_datatypes()
+
         # explicit object->datatype relationships: those that came from an object being typed as a datatype
         # or a sameAs. The values are arrays of datatypes to which the resource belong
         explicit = defaultdict(set)
@@ -205,7 +219,7 @@ class OWLRL_Semantics(Core):
         implicit = {
             o: o.datatype
             for s, p, o in self.graph.triples((None, None, None))
-            if isinstance(o, rdflib.Literal) and o.datatype in OWL_RL_Datatypes
+            if isinstance(o, rdflib.Literal) and o.datatype in datatypes
         }
 
         # datatypes in use by the graph (directly or indirectly). This will be used at the end to add the
@@ -222,7 +236,7 @@ class OWLRL_Semantics(Core):
             # for dt-not-type
             # This is a dirty trick: rdflib's Literal includes a method that raises an exception if the
             # lexical value cannot be mapped on the value space.
-            converter = AltXSDToPYTHON.get(lt.datatype, identity)
+            converter = self.datatype_conversions.get(lt.datatype, identity)
             try:
                 converter(str(lt))
             except Exception:
@@ -240,7 +254,7 @@ class OWLRL_Semantics(Core):
         # it is perfectly possible...
         # there may be explicit relationships set in the graph, too!
         for (s, p, o) in self.graph.triples((None, RDF.type, None)):
-            if o in OWL_RL_Datatypes:
+            if o in datatypes:
                 used_datatypes.add(o)
                 if s not in implicit:
                     _add_to_explicit(s, o)
@@ -265,7 +279,7 @@ class OWLRL_Semantics(Core):
         # RULE dt-type1: add a Datatype typing for all those
         # Note: the strict interpretation of OWL RL is to do that for all allowed datatypes, but this is
         # under discussion right now. The optimized version uses only what is really in use
-        for dt in OWL_RL_Datatypes:
+        for dt in datatypes:
             self.store_triple((dt, RDF.type, RDFS.Datatype))
         for dts in explicit.values():
             for dt in dts:
diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index f51efc9..662385e 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -54,8 +54,6 @@ from .DatatypeHandling import AltXSDToPYTHON
 from .CombinedClosure import RDFS_OWLRL_Semantics
 from .OWLRL import OWLRL_Annotation_properties
 
-from .XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
-
 from .RestrictedDatatype import extract_faceted_datatypes
 
 #######################################################################################################################
@@ -137,10 +135,11 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
         self.add_new_datatype(
             OWL.rational,
             _strToRational,
-            OWL_RL_Datatypes,
-            subsumption_dict=OWL_Datatype_Subsumptions,
+            self.datatypes,
+            subsumption_dict=self.datatype_subsumptions,
             subsumption_key=XSD.decimal,
             subsumption_list=[OWL.rational],
+            conversion_dict=self.datatype_conversions,
         )
 
         self.restricted_datatypes = extract_faceted_datatypes(self, graph)
@@ -148,10 +147,11 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             self.add_new_datatype(
                 dt.datatype,
                 dt.toPython,
-                OWL_RL_Datatypes,
-                subsumption_dict=OWL_Datatype_Subsumptions,
+                self.datatypes,
+                subsumption_dict=self.datatype_subsumptions,
                 subsumption_key=dt.datatype,
                 subsumption_list=[dt.base_type],
+                conversion_dict=self.datatype_conversions,
             )
 
     # noinspection PyShadowingNames
@@ -174,7 +174,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(AltXSDToPYTHON[lt.datatype](str(lt))):
+                        if rt.checkValue(self.datatype_conversions[lt.datatype](str(lt))):
                             # yep, this is also of type 'rt'
                             self.store_triple((lt, RDF.type, rt.datatype))
                     except:
@@ -202,7 +202,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if rt.datatype == t:
                     # bingo
                     if isinstance(v, rdflib.Literal):
-                        return rt.checkValue(AltXSDToPYTHON[v.datatype](str(v)))
+                        return rt.checkValue(self.datatype_conversions[v.datatype](str(v)))
                     else:
                         return True
             # if we got here, no restriction applies
@@ -330,7 +330,7 @@ class OWLRL_Extension_Trimming(OWLRL_Extension):
             ):
                 to_be_removed.add(t)
 
-        for dt in OWL_RL_Datatypes:
+        for dt in self._known_datatypes():
             # see if this datatype appears explicitly in the graph as the type of a symbol
             if len([s for s in self.graph.subjects(RDF.type, dt)]) == 0:
                 to_be_removed.add((dt, RDF.type, RDFS.Datatype))
-- 
2.43.0


From b896e594b77aca3bb551871439f8742f633568f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 32/46] fix: the lexical conversion table is restored after an
 expansion, entirely and even if it raises

---
 owlrl/DatatypeHandling.py | 33 ++++++++++++++++++++++++++++++++-
 owlrl/__init__.py         |  9 +++++----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 7bcb1c1..175b559 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -39,6 +39,7 @@ from rdflib.namespace import RDF, XSD
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
 import datetime, time, re
+from contextlib import contextmanager
 from decimal import Decimal
 
 
@@ -721,6 +722,10 @@ AltXSDToPYTHON = {
 }
 
 
+# RDFLib's conversions before the improved ones were registered
+_original_conversions = None
+
+
 def use_Alt_lexical_conversions():
     """
     Registering the datatypes item for RDFLib, ie, bind the dictionary values. The 'bind' method of RDFLib adds
@@ -728,6 +733,9 @@ def use_Alt_lexical_conversions():
     overrides all of the default conversion routines. The method also add a Decimal entry to the :code:`PythonToXSD` list of
     RDFLib.
     """
+    global _original_conversions
+    if _original_conversions is None:
+        _original_conversions = dict(_toPythonMapping)
     _toPythonMapping.update(AltXSDToPYTHON)
 
 
@@ -735,7 +743,30 @@ def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
-    _toPythonMapping.update(XSDToPython)
+    global _original_conversions
+    if _original_conversions is None:
+        _toPythonMapping.update(XSDToPython)
+    else:
+        _restore(_original_conversions)
+        _original_conversions = None
+
+
+def _restore(conversions):
+    _toPythonMapping.clear()
+    _toPythonMapping.update(conversions)
+
+
+@contextmanager
+def alt_lexical_conversions():
+    """
+    Context in which the improved conversion routines are registered; RDFLib's table is left exactly as it was.
+    """
+    original = dict(_toPythonMapping)
+    _toPythonMapping.update(AltXSDToPYTHON)
+    try:
+        yield
+    finally:
+        _restore(original)
 
 
 #######################################################################################
diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..63a71b4 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -396,8 +396,12 @@ class DeductiveClosure:
         :type destination: :class:`rdflib.Graph`
         """
         if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_Alt_lexical_conversions()
+            with DatatypeHandling.alt_lexical_conversions():
+                self._expand(graph, destination)
+        else:
+            self._expand(graph, destination)
 
+    def _expand(self, graph: Graph, destination: Union[None, Graph] = None):
         if self.closure_class is not None:
             self.closure_class(
                 graph,
@@ -407,9 +411,6 @@ class DeductiveClosure:
                 destination=destination
             ).closure()
 
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_RDFLib_lexical_conversions()
-
     @staticmethod
     def use_improved_datatypes_conversions():
         """
-- 
2.43.0


From f545c2a7e29740f2d65f9b68ac772b6719649196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 33/46] fix: each import is followed once, circular imports end

---
 owlrl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 63a71b4..19c1752 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -243,6 +243,7 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    done = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
@@ -254,6 +255,10 @@ def interpret_owl_imports(iformat, graph):
             graph.remove(t)
         # 3. get all the imported vocabularies and import them
         for (s, p, uri) in all_imports:
+            if str(uri) in done:
+                # imported already; this happens, e.g., with circular imports
+                continue
+            done.add(str(uri))
             # this is not 100% kosher. The expected object for an import statement is a URI. However,
             # on local usage, a string would also make sense, so I do that one, too
             if isinstance(uri, Literal):
-- 
2.43.0


From aead4ab28138da4ddc38a87825650eeec814068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 34/46] fix: RDF/XML is recognized under both of its documented
 names

---
 owlrl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 19c1752..1760fe4 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -211,7 +211,7 @@ def __parse_input(iformat, inp, graph):
         format = "turtle"
     elif iformat == RDFA:
         format = "rdfa1.1"
-    elif iformat == RDFXML:
+    elif iformat == RDFXML or iformat == "rdfxml":
         format = "xml"
     elif iformat == JSON:
         format = "json-ld"
@@ -592,7 +592,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format == "rdfxml" or options.format == RDFXML:
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From d6e13911484fca297d2a39e76fa556f2ed5f25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 35/46] fix: the maximal flag switches RDFS on, as documented

---
 scripts/owlrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/owlrl b/scripts/owlrl
index fa8be8c..270ebc4 100755
--- a/scripts/owlrl
+++ b/scripts/owlrl
@@ -85,6 +85,7 @@ def main():
     if options.maximal == "yes":
         options.trimming = "yes"
         options.owlClosure = "yes"
+        options.rdfsClosure = "yes"
         options.owlExtras = "yes"
             
     print(convert_graph(options))
-- 
2.43.0


From 4aeeef5effa159684a8024a8c4f347ad45885711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 36/46] fix: trimming removes the axioms binding DataRange and
 Datatype

---
 owlrl/OWLRLExtras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 662385e..2ae6d0a 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -356,8 +356,8 @@ class OWLRL_Extension_Trimming(OWLRL_Extension):
         to_be_removed.add((RDFS.Class, RDFS.subClassOf, OWL.Class))
         to_be_removed.add((RDFS.Datatype, RDFS.subClassOf, OWL.DataRange))
         to_be_removed.add((RDFS.Datatype, OWL.equivalentClass, OWL.DataRange))
-        to_be_removed.add((OWL.DataRange, RDFS.subClassOf, OWL.DatatypeProperty))
-        to_be_removed.add((OWL.DataRange, OWL.equivalentClass, OWL.DatatypeProperty))
+        to_be_removed.add((OWL.DataRange, RDFS.subClassOf, RDFS.Datatype))
+        to_be_removed.add((OWL.DataRange, OWL.equivalentClass, RDFS.Datatype))
 
         for t in to_be_removed:
             self.destination.remove(t)
-- 
2.43.0


From f53a18687d7a91e733d5bc90fcace62eb295e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 37/46] fix: literals with different languages, or booleans and
 numbers, are not the same

---
 owlrl/RDFSClosure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 5bfc2f6..f5da4aa 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -111,8 +111,11 @@ class RDFS_Semantics(Core):
 
     @staticmethod
     def _literals_same_as(lt1, lt2):
+        if (lt1.language or "").lower() != (lt2.language or "").lower():
+            return False
         if lt1.value is not None and lt2.value is not None:
-            return lt1.value == lt2.value
+            # Python considers True and 1 to be equal
+            return lt1.value == lt2.value and isinstance(lt1.value, bool) == isinstance(lt2.value, bool)
         elif lt1.datatype is not None and lt2.datatype is not None:
             return lt1.__eq__(lt2)
         return False
-- 
2.43.0


From 3bcb72232cd3b450690ed40bd24348bbd68693de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 38/46] fix: literal copies already in the dataset are not
 repeated in the destination

---
 owlrl/RDFSClosure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index f5da4aa..a135f40 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -144,7 +144,7 @@ class RDFS_Semantics(Core):
             # effect. In RDFS this is not possible, so the sameAs rule is,
             # essentially replicated...
             for (s, p, o) in self.graph.triples((None, None, lt1)):
-                self.destination.add((s, p, lt2))
+                self.store_triple((s, p, lt2))
 
     def rules(self, t, cycle_num):
         """
-- 
2.43.0


From e9bcdb765f819214c43b1561ad1364f6415cf49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 39/46] fix: the container membership properties in use get
 their axioms, whatever the gaps and multiplicities

---
 owlrl/Closure.py     | 25 ++++++++++---------------
 owlrl/RDFSClosure.py |  3 +--
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..65dd8fd 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -25,6 +25,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import re
 from typing import Union
 
 import rdflib
@@ -70,6 +71,9 @@ class Core:
     :var IMaxNum: Maximal index of :code:`rdf:_i` occurrence in the graph.
     :type IMaxNum: int
 
+    :var container_members: The :code:`rdf:_i` predicates occurring in the graph.
+    :type container_members: set of :class:`rdflib.URIRef`
+
     :var graph: The real graph.
     :type graph: :class:`rdflib.Graph`
 
@@ -108,24 +112,15 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
+        member = re.compile(re.escape(str(RDF)) + "_([1-9][0-9]*)")
+        self.container_members = {p for p in graph.predicates() if member.fullmatch(str(p))}
+        self.IMaxNum = max((int(member.fullmatch(str(p)).group(1)) for p in self.container_members), default=0)
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
@@ -141,7 +136,7 @@ class Core:
                 source_store = self.graph.store
                 dest_store = destination.store
                 if source_store is not dest_store:
-                    raise ValueError("The source and destination graphs share the same backing store")
+                    raise ValueError("The source and destination graphs do not share the same backing store")
                 self.destination = destination
 
         self.axioms = axioms
diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index a135f40..5b6c12e 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -90,8 +90,7 @@ class RDFS_Semantics(Core):
         """
         for t in RDFS_Axiomatic_Triples:
             self.destination.add(t)
-        for i in range(1, self.IMaxNum + 1):
-            ci = RDF[("_%d" % i)]
+        for ci in self.container_members:
             self.destination.add((ci, RDF.type, RDF.Property))
             self.destination.add((ci, RDFS.domain, RDFS.Resource))
             self.destination.add((ci, RDFS.range, RDFS.Resource))
-- 
2.43.0


From 07fe259a817d07f832025c9a971ffd082b8b3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 40/46] fix: only an all-zero fraction makes 24:00:00 the end
 of the day

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 175b559..ad00b14 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -390,7 +390,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
         if re.fullmatch("[0-9]{4}(-[0-9]{2}){2}T[0-9]{2}(:[0-9]{2}){2}", final_v) is None:
             raise ValueError("Invalid datetime %s" % incoming_v)
         # 24:00:00 is the first instant of the next day
-        end_of_day = final_v.endswith("T24:00:00") and milliseconds == 0
+        end_of_day = re.fullmatch(r".*T24:00:00(\.0+)?", v) is not None
         if end_of_day:
             final_v = final_v.replace("T24", "T00")
         tstr = time.strptime(final_v, "%Y-%m-%dT%H:%M:%S")
@@ -451,7 +451,7 @@ def _strToTime(incoming_v):
         if re.fullmatch("[0-9]{2}(:[0-9]{2}){2}", final_v) is None:
             raise ValueError("Invalid time %s" % incoming_v)
         # 24:00:00 is the same as midnight
-        if final_v == "24:00:00" and milliseconds == 0:
+        if re.fullmatch(r"24:00:00(\.0+)?", v) is not None:
             final_v = "00:00:00"
         tstr = time.strptime(final_v, "%H:%M:%S")
         if tzone is not None:
-- 
2.43.0


From 63a99d51367ea57f7a40589f9aa0f8651260f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:30 +0000
Subject: [PATCH 41/46] fix: the list of a union is not an owl:Class, what has
 one is

---
 owlrl/AxiomaticTriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/AxiomaticTriples.py b/owlrl/AxiomaticTriples.py
index 40e00a4..3058a28 100755
--- a/owlrl/AxiomaticTriples.py
+++ b/owlrl/AxiomaticTriples.py
@@ -451,7 +451,7 @@ _OWL_axiomatic_triples_Properties = [
     (OWL.onDatatype, RDFS.range, OWL.DataRange),
     (OWL.oneOf, RDFS.domain, OWL.Class),
     (OWL.someValuesFrom, RDFS.range, OWL.Class),
-    (OWL.unionOf, RDFS.range, OWL.Class),
+    (OWL.unionOf, RDFS.domain, OWL.Class),
     #    (OWL.withRestrictions, RDFS.domain, OWL.DataRange)
 ]
 
-- 
2.43.0


From ab6b3c314ba9d2404ce33a4eac1260bce97d99e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:11 +0000
Subject: [PATCH 42/46] fix: the service's error page works without cgi.escape
 and escapes what it shows

---
 scripts/RDFConvertService | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 1e6ca66..0a4a301 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -17,6 +17,7 @@ import os
 import sys
 import cgi
 import cgitb
+from html import escape
 # prevent accidentally importing `scripts/owlrl` file when calling
 # `from owlrl import ...` below.
 HERE_DIR = os.path.abspath(os.path.dirname(__file__))
@@ -97,24 +98,24 @@ class Options:
         if len(self.sources) == 0:
             print("none")
         elif len(self.sources) == 1:
-            print(cgi.escape(self.sources[0]))
+            print(escape(self.sources[0]))
         else:
-            print(cgi.escape(self.sources[0]), ", ", cgi.escape(self.sources[1]))
+            print(escape(self.sources[0]), ", ", escape(self.sources[1]))
         print('</dd>')
         
         print('<dt>Input format:</dt>')
-        print('<dd>%s</dd>' % self.iformat)
-        print('<dt>Output format:</dt><dd>%s</dd>' % self.format)
-        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % self.owlClosure)
-        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % self.rdfsClosure)
-        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % self.owlExtras)
-        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % self.axioms)
-        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % self.daxioms)
+        print('<dd>%s</dd>' % escape(self.iformat))
+        print('<dt>Output format:</dt><dd>%s</dd>' % escape(self.format))
+        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % escape(self.owlClosure))
+        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % escape(self.rdfsClosure))
+        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % escape(self.owlExtras))
+        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % escape(self.axioms))
+        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % escape(self.daxioms))
         if self.text is not None:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
         if self.text is not None:
-            print(cgi.escape(self.text).replace('\n', '<br/>'))
+            print(escape(self.text).replace('\n', '<br/>'))
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -139,7 +140,7 @@ except:
     print("<title>Error in RDF Closure processing</title>")
     print("</head><body>")
     print("<h1>Error in RDF Closure processing:</h1>")
-    print("<pre>%s</pre>" % value)
+    print("<pre>%s</pre>" % escape(str(value)))
     print("<h1>For reference, the input arguments were:</h1>")
     options.to_html()
     print("</body>")
-- 
2.43.0


From 3821f67ade6cf3df34568c0f41eb807fd270a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:04 +0000
Subject: [PATCH 43/46] fix: a token may hold white space characters other than
 the space, they are ordinary characters of it

---
 owlrl/DatatypeHandling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index ad00b14..8f88bc1 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -634,10 +634,9 @@ def _strToToken(v):
         return v
     # filter out the case when there are new lines and similar (if there is a problem, an exception is raised)
     _strToVal_Regexp(v, _re_token)
-    v1 = " ".join(v.strip().split())
-    # normalize the string, and see if the result is the same:
-    if len(v1) == len(v):
-        # no characters lost, ie, no unnecessary spaces
+    # only the space itself counts (white space like U+00A0 is an ordinary character of a token)
+    if v == v.strip(" ") and "  " not in v:
+        # ie, no unnecessary spaces
         return v
     else:
         raise ValueError("Invalid literal %s" % v)
-- 
2.43.0


From 478959b9af4ef182ccde501d1cae51e5defdfb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:10 +0000
Subject: [PATCH 44/46] fix: base64Binary accepts exactly the XML Schema forms
 (the empty one and spaces, but no characters or padding out of place)

---
 owlrl/DatatypeHandling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8f88bc1..910916c 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -177,6 +177,13 @@ def _strToAnyURI(v):
 
 
 # Base64Binary ##################################################
+# lexical form of a base64 encoded value, as in the XML Schema specification
+_re_base64 = (
+    r"((([A-Za-z0-9+/] ?){4})*(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]"
+    r"|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|[A-Za-z0-9+/] ?[AQgw] ?= ?=))?"
+)
+
+
 # noinspection PyPep8Naming
 def _strToBase64Binary(v):
     """Rudimentary test for the base64Binary value. The problem is that the built-in b64 module functions ignore the
@@ -187,7 +194,7 @@ def _strToBase64Binary(v):
     """
     import base64
 
-    if v.replace("=", "x").replace("+", "y").replace("/", "z").isalnum():
+    if re.fullmatch(_re_base64, v) is not None:
         try:
             return base64.standard_b64decode(v)
         except:
-- 
2.43.0


From 464b0dc1c4fd22e3481b432e6d293a428d52ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:10 +0000
Subject: [PATCH 45/46] fix: gYear, gYearMonth, gMonthDay, gDay and gMonth take
 the XML Schema forms (leading dashes, time zones) and no others

---
 owlrl/DatatypeHandling.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 910916c..288444a 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -505,7 +505,10 @@ def _strTogYearMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01", "%Y-%m-%d")
+        (final_v, tzone) = _returnTimeZone(v)
+        if re.fullmatch("[0-9]{4}-[0-9]{2}", final_v) is None:
+            raise ValueError("Invalid gYearMonth %s" % v)
+        time.strptime(final_v + "-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gYearMonth %s" % v)
@@ -519,7 +522,10 @@ def _strTogYear(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime(v + "-01-01", "%Y-%m-%d")
+        (final_v, tzone) = _returnTimeZone(v)
+        if re.fullmatch("[0-9]{4}", final_v) is None:
+            raise ValueError("Invalid gYear %s" % v)
+        time.strptime(final_v + "-01-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gYear %s" % v)
@@ -533,7 +539,10 @@ def _strTogMonthDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2008-" + v, "%Y-%m-%d")
+        (final_v, tzone) = _returnTimeZone(v)
+        if re.fullmatch("--[0-9]{2}-[0-9]{2}", final_v) is None:
+            raise ValueError("Invalid gMonthDay %s" % v)
+        time.strptime("2008-" + final_v[2:], "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gMonthDay %s" % v)
@@ -547,7 +556,10 @@ def _strTogDay(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-01-" + v, "%Y-%m-%d")
+        (final_v, tzone) = _returnTimeZone(v)
+        if re.fullmatch("---[0-9]{2}", final_v) is None:
+            raise ValueError("Invalid gDay %s" % v)
+        time.strptime("2001-01-" + final_v[3:], "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gDay %s" % v)
@@ -561,7 +573,10 @@ def _strTogMonth(v):
     @raise ValueError: invalid value
     """
     try:
-        time.strptime("2001-" + v + "-01", "%Y-%m-%d")
+        (final_v, tzone) = _returnTimeZone(v)
+        if re.fullmatch("--[0-9]{2}", final_v) is None:
+            raise ValueError("Invalid gMonth %s" % v)
+        time.strptime("2001-" + final_v[2:] + "-01", "%Y-%m-%d")
         return v
     except:
         raise ValueError("Invalid gMonth %s" % v)
-- 
2.43.0


From 097dda06a9dd066998cd1ce5787bb073424d49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:10 +0000
Subject: [PATCH 46/46] fix: a rational with more than one '/' is malformed

---
 owlrl/OWLRLExtras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 2ae6d0a..74cea88 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -77,9 +77,11 @@ def _strToRational(v):
         if len(r) == 2:
             n_str = r[0]
             d_str = r[1]
-        else:
+        elif len(r) == 1:
             n_str = r[0]
             d_str = "1"
+        else:
+            raise ValueError("Invalid Rational literal value %s" % v)
         if d_str.strip()[0] == "+":
             raise ValueError("Invalid Rational literal value %s" % v)
         else:
-- 
2.43.0

