From 304613120dca60ec7ad871368e43051783a205b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 01/49] fix: 3D LUT lookups index non-cubic lattices by their
 own G and B sizes

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5bb982c 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -538,7 +538,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = (index3[0]*dimensions[1]*dimensions[2] + index3[1]*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
-- 
2.43.0


From 4e65619154ee4f02993b589a0cbeb1af9d021f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 02/49] fix: simple3DLUT stores samples of a non-cubic lattice
 at their own index

---
 python/aces/clf/LUT3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..2d360fc 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = (((x*resolution[1] +y)*resolution[2] + z))*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
-- 
2.43.0


From b6a6ff71087deadfdd5a501223589f62879aa509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 03/49] fix: LUT3D.setArray leaves the caller's dimension list
 alone

---
 python/aces/clf/LUT3D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 2d360fc..027675f 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,8 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
-        dimensions.append(3)
+        dimensions = list(dimension) + [3]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
-- 
2.43.0


From 6ca62acd2166752d3a2d28bab21274e01efe921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 04/49] fix: 1D LUTs with cubic interpolation fall back to
 linear instead of raising NameError

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5bb982c..a7f807c 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From ea7d18e32353c106a73f1a45edd7274136311b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 05/49] fix: nearest half-domain lookup no longer reads an
 undefined name

---
 python/aces/clf/Array.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index a7f807c..d40b3cb 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -351,10 +351,8 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        result = self.lookup1D(index, channel)
 
         return result
 
-- 
2.43.0


From 5f256d7759f386fa61c472d193c70d64c7f38a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 06/49] fix: getIndexMapDimensions calls the IndexMap getter
 that exists

---
 python/aces/clf/LUT1D.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..3e12624 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -112,7 +112,7 @@ class LUT1D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 027675f..ab170b9 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -104,7 +104,7 @@ class LUT3D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
-- 
2.43.0


From 644126ab44bc56e3c19944777228b069cbd01fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 07/49] fix: IndexMap.setValues refreshes the cache through the
 method that exists

---
 python/aces/clf/IndexMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..14d69c9 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -82,7 +82,7 @@ class IndexMap:
     def setValues(self, values):
         self._values = values
         if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+            self._createCachedProcess()
     def getValues(self):
         return self._values
 
-- 
2.43.0


From 9f3feb238b3fa35d0456be27231f16885f9ecaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 08/49] fix: ExposureContrast style 'video' raised TypeError
 from a misplaced parenthesis

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..38aae5f 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -148,7 +148,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From dd0dff3ada7b210dd2c1268a42544f07a53e2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/49] fix: ExposureContrast style 'log' imports math and
 keeps its pixel index

---
 python/aces/clf/ExtensionExposureContrast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 38aae5f..5d0413c 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -156,8 +158,8 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 8fde603098c2a3d7e00791a155f93afac5f60803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 10/49] fix: ExposureContrast copies each pixel's own extra
 channels

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 5d0413c..64996d6 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -165,7 +165,7 @@ class ExposureContrast(ProcessNode):
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From 02121e6d0400bbc7e6cc94ac00c5343d7a26db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 11/49] fix: ExposureContrast.printInfo shows the contrast

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 64996d6..da74aba 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From e2a2a934037d4e031fbdcf602f86261e2cace3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 12/49] fix: Gamma moncurveRev switches segments at the pivot
 it computes

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..b6a0b31 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 05c3d872ea0ece65d3f322ea4d12daa6a8685949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 13/49] fix: ASC CDL RevNoClamp does not clamp

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..ce86252 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -218,9 +218,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From 5b62473becb0106b39d302257eecc791f192f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 14/49] fix: ColorCorrection nodes process values as the
 forward CDL they describe

---
 python/aces/clf/ASCCDL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index ce86252..f4f8aef 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -130,11 +130,12 @@ class ASCCDL(ProcessNode):
             return values
 
         # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        inBitDepth = self.getAttribute('inBitDepth')
+        outBitDepth = self.getAttribute('outBitDepth')
 
         # Node attributes
-        style = ''
+        # ColorCorrection elements have no style: they are forward transforms
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From c04054c22274c5f2298712e71cef4aaf08b0170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 15/49] fix: Matrix accepts pixels with fewer channels than the
 matrix has rows

---
 python/aces/clf/Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 9fe54d2..a3915ea 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -118,7 +118,7 @@ class Matrix(ProcessNode):
             for i in range(min(dimensions[0], stride)):
                 offset = i*dimensions[1]
                 outValue[i] = 0
-                for j in range(dimensions[0]):
+                for j in range(min(dimensions[0], stride)):
                     outValue[i] += matrix[j + offset]*value[j]
 
                 #print( "value : %d : %f = %f * %f + %f * %f + %f * %f" % (
-- 
2.43.0


From fa82a316ab54e3b1fb351d5af50550706c8bc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 16/49] fix: Log.process takes its stride as optionally as the
 other nodes

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From f68bbe528f124d70e0b0acce165101fdc2e00486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 17/49] fix: the no-op ProcessNode.process returns its input

---
 python/aces/clf/ProcessNode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..38c4785 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -306,7 +306,7 @@ class ProcessNode():
     def process(self, values, stride=0, verbose=False):
         if verbose:
             print( "ProcessNode::process - no op")
-        return value
+        return values
 
     # Setters and getters
     def setInBitDepth(self, name):
-- 
2.43.0


From 75ac9afbdc0f8df6695e68c793f26ae696371e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 18/49] fix: bypass='False' does not bypass a node

---
 python/aces/clf/ExtensionGroup.py | 2 +-
 python/aces/clf/ProcessList.py    | 4 ++--
 python/aces/clf/ProcessNode.py    | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..a725fe6 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,7 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if not processNode.isBypassed():
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..d7216b6 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (not processNode.isBypassed() or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
@@ -363,7 +363,7 @@ class ProcessList:
                             " ".join(map(lambda x: "%3.6f" % x, result)),
                             type(result) ) )
 
-                    if (processNode.getAttribute('bypass') != None and
+                    if (processNode.isBypassed() and
                         not(getFeatureCompatibility() & featureSets["Autodesk"])):
                         print( "%s (%s) - bypass ignored based on feature compatibility setting." % 
                             (processNode.getAttribute('name'), processNode.getNodeType()) )
diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index 38c4785..7342c3f 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -318,5 +318,9 @@ class ProcessNode():
         self.setAttribute('outBitDepth', name)
     def getOutBitDepth(self):
         return self.getAttribute('outBitDepth')
+
+    # A node is bypassed unless the attribute is absent or says no
+    def isBypassed(self):
+        return not (self.getAttribute('bypass') in [None, False, '', 'False', 'false', '0'])
 # ProcessNode
 
-- 
2.43.0


From 08cad658d9af6f171f2f5951bd096b72590be7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 19/49] fix: a Group ignores bypass when the Autodesk feature
 set is off, as a ProcessList does

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index a725fe6..d0d4368 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if not processNode.isBypassed():
+            if (not processNode.isBypassed() or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From 4e6540cdf78f96a538d2ac997b001cfe4b421572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 20/49] fix: bypassing the first or last node still adapts the
 bit depth

---
 python/aces/clf/ExtensionGroup.py | 32 +++++++++++++++++--------------
 python/aces/clf/ProcessList.py    | 32 +++++++++++++++++--------------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index d0d4368..d4c337d 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -135,23 +135,27 @@ class Group(ProcessNode):
                         (processNode.getAttribute('name'), processNode.getNodeType()))
 
                 # Handle bit-depth mismatches
-                if i > 0 and i < (len(self._processes)-1):
-                    RangeClass = ProcessList.serializableClasses['Range']
+                # The first and last nodes of a list have no neighbour on one side
+                inBitDepth = processNode.getInBitDepth()
+                outBitDepth = processNode.getOutBitDepth()
+                if i > 0:
                     inBitDepth = self._processes[i-1].getOutBitDepth()
+                if i < (len(self._processes)-1):
                     outBitDepth = self._processes[i+1].getInBitDepth()
 
-                    if inBitDepth != outBitDepth:
-                        if verbose:
-                            print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
-                                processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
-
-                        RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, stride, verbose=verbose)
-                        if verbose:
-                            print( "%s (%s) - result value : %s, result type : %s" % 
-                                (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-                                    " ".join(map(lambda x: "%3.6f" % x, result)),
-                                    type(result) ) )
+                if inBitDepth != outBitDepth:
+                    RangeClass = ProcessList.serializableClasses['Range']
+                    if verbose:
+                        print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
+                            processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
+
+                    RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
+                    result = RangeAdapter.process(result, stride, verbose=verbose)
+                    if verbose:
+                        print( "%s (%s) - result value : %s, result type : %s" % 
+                            (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
+                                " ".join(map(lambda x: "%3.6f" % x, result)),
+                                type(result) ) )
 
         return result
     # process
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index d7216b6..30a3d92 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -375,23 +375,27 @@ class ProcessList:
                         (processNode.getAttribute('name'), processNode.getNodeType()))
 
                 # Handle bit-depth mismatches
-                if i > 0 and i < (len(self._processes)-1):
-                    RangeClass = ProcessList.serializableClasses['Range']
+                # The first and last nodes of a list have no neighbour on one side
+                inBitDepth = processNode.getInBitDepth()
+                outBitDepth = processNode.getOutBitDepth()
+                if i > 0:
                     inBitDepth = self._processes[i-1].getOutBitDepth()
+                if i < (len(self._processes)-1):
                     outBitDepth = self._processes[i+1].getInBitDepth()
 
-                    if inBitDepth != outBitDepth:
-                        if verbose:
-                            print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
-                                processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
-
-                        RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, verbose=verbose)
-                        if verbose:
-                            print( "%s (%s) - result value : %s, result type : %s" % 
-                                (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-                                    " ".join(map(lambda x: "%3.6f" % x, result)),
-                                    type(result) ) )
+                if inBitDepth != outBitDepth:
+                    RangeClass = ProcessList.serializableClasses['Range']
+                    if verbose:
+                        print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
+                            processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
+
+                    RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
+                    result = RangeAdapter.process(result, verbose=verbose)
+                    if verbose:
+                        print( "%s (%s) - result value : %s, result type : %s" % 
+                            (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
+                                " ".join(map(lambda x: "%3.6f" % x, result)),
+                                type(result) ) )
 
         return result
     # process
-- 
2.43.0


From 5c24423443a06a5f4b69495c46650a69e905794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 21/49] fix: errors in the content of a gzipped file are
 reported, not hidden by a second read

---
 python/aces/clf/ProcessList.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 30a3d92..da6562e 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -239,16 +239,17 @@ class ProcessList:
             # Try to read as gzipped XML file
             try:
                 f = gzip.open(clfPath, 'rb')
-                tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
-                f.close()
+                try:
+                    tree = etree.parse(f)
+                finally:
+                    f.close()
 
             # Read as normal XML otherwise
-            except:
+            except IOError:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
+
+            root = tree.getroot()
+            self.read(root, strict)
 
         # Read as XML otherwise
         else:
-- 
2.43.0


From 08e867358d336a2cb384a3824e5da310b2bd9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 22/49] fix: names and descriptions outside ASCII can be
 written

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index da6562e..c01df37 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml(encoding='UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From 8e875e9b88222db44a65ac60e4d1af4a0631b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 23/49] fix: the namespace of a file survives reading and
 writing

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index c01df37..da2860e 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -191,6 +191,10 @@ class ProcessList:
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
 
+        # The parser moves the namespace from the attributes to the tag
+        if root.tag.startswith('{'):
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Read child elements
         for child in root:
             # Find the Python class associated with this XML element tag
-- 
2.43.0


From d48b7ae8c591ce66d9fef233ffc7c9016d87e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 24/49] fix: strict reading and feature gating reach the nodes
 inside a Group

---
 python/aces/clf/ExtensionGroup.py | 17 +++++++++++++++--
 python/aces/clf/ProcessList.py    | 23 ++++++++++++++---------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index d4c337d..342991f 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -94,6 +95,12 @@ class Group(ProcessNode):
         return node
     # write
 
+    # Children are read as strictly as the Group itself
+    def read(self, element, strict=False):
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
@@ -101,15 +108,21 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+                ProcessList.checkFeatureCompatibility(elementType, self._strict)
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg )
 
         return None
     # readChild
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index da2860e..174a06c 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -184,6 +184,19 @@ class ProcessList:
         return elementType
     # getElementType
 
+    @staticmethod
+    def checkFeatureCompatibility(elementType, strict=False):
+        if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+            not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+            (elementType in ["Group"] and
+                not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+            msg = "Unsupported feature : ProcessNode type %s" % elementType
+            if strict:
+                raise Errors.UnsupportedExtensionError(msg)
+            else:
+                print( "ProcessList::read - %s" % msg )
+    # checkFeatureCompatibility
+
     def read(self, element, strict=False):
         root = element
 
@@ -213,15 +226,7 @@ class ProcessList:
 
                     # Check that a given ProcessNode class is compatible with 
                     # the current feature set
-                    if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
-                        not (getFeatureCompatibility() & featureSets["Autodesk"])) or
-                        (elementType in ["Group"] and
-                            not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
-                        msg = "Unsupported feature : ProcessNode type %s" % elementType
-                        if strict:
-                            raise Errors.UnsupportedExtensionError(msg)
-                        else:
-                            print( "ProcessList::read - %s" % msg )
+                    self.checkFeatureCompatibility(elementType, strict)
 
                     self.addProcess( element )
 
-- 
2.43.0


From 0c4206287e7796de4b0b5056e1a15c279f4963f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 25/49] fix: self-contained files also inline nested and
 grouped References, and survive unresolved ones

---
 python/aces/clf/ExtensionGroup.py     |  7 ++++++-
 python/aces/clf/ExtensionReference.py | 12 ++++++++++--
 python/aces/clf/ProcessList.py        |  7 ++++++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 342991f..cedeaa8 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -90,7 +90,12 @@ class Group(ProcessNode):
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, ProcessList.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(node)
+                process.write(node)
+            # Groups pass the choice on to their children
+            elif isinstance(process, Group):
+                process.write(node, writeSelfContained)
+            else:
+                process.write(node)
         
         return node
     # write
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..3f50ec2 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,10 +105,18 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        # The nodes can only be written if the path could be resolved
+        if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
-                process.write(tree)
+                # Nested References and Groups are written out as well
+                if isinstance(process, Reference):
+                    process.setWriteReferencedNodes(True)
+                    process.write(tree)
+                elif isinstance(process, ProcessList.ProcessList.getClass("Group")):
+                    process.write(tree, True)
+                else:
+                    process.write(tree)
             return tree
         else:
             node = ProcessNode.write(self, tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 174a06c..9ccf266 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -140,7 +140,12 @@ class ProcessList:
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, self.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(tree)
+                process.write(tree)
+            # Groups pass the choice on to their children
+            elif isinstance(process, self.getClass("Group")):
+                process.write(tree, writeSelfContained)
+            else:
+                process.write(tree)
         
         document = etree.ElementTree(tree)
 
-- 
2.43.0


From 9082c886028532ddcd585801e0dde69eec6e4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 26/49] fix: a bypassed Reference stays bypassed in a
 self-contained file

---
 python/aces/clf/ExtensionReference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 3f50ec2..1c46288 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,8 +105,10 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        # The nodes can only be written if the path could be resolved
-        if self._writeReferencedNodes and self._processList != None:
+        # The nodes can only be written if the path could be resolved,
+        # and would come into effect if the Reference is bypassed
+        if (self._writeReferencedNodes and self._processList != None and
+            not self.isBypassed()):
             processes = self._processList.getProcesses()
             for process in processes:
                 # Nested References and Groups are written out as well
-- 
2.43.0


From ee744117a52330885226cb39ef05f22e34ce460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 27/49] fix: the output shaper of a 1D/3D/1D LUT undoes the
 output shaper, not the input one

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..6d1ebd6 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From 05ee21f267450dd86d3e1e223158cc3daef3b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 28/49] fix: CLF 1D/3D/1D LUTs apply the input shaper instead
 of its inverse

---
 python/aces/lutFormats/LutCLF.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..12093d9 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -131,17 +131,18 @@ class LutFormatCLF(LutFormat.LutFormat):
         lutpns = []
 
         # Create the input shaper
+        # The samples go from [inputMin, inputMax] to the domain of the 3D LUT
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "shaper_range", "shaper_range")
+            rangepn.setMinInValue(inputMin)
+            rangepn.setMaxInValue(inputMax)
+            rangepn.setMinOutValue(0.0)
+            rangepn.setMaxOutValue(1.0)
+            lutpns.append(rangepn)
+
+            shaperpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "shaper_lut1d", "shaper_lut1d", interpolation='linear')
+            shaperpn.setArray(3, samples1dIn)
+            lutpns.append(shaperpn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From 907521e05e2aa498a507b4c135e1c9029c7edcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 29/49] fix: the CTL 1D writer writes each channel's own values

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From f9bfa55b483bf14eaf6f8ae973145f3d0592c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 30/49] fix: resampled inverse LUTs hold the ends of each
 channel and accept flat ends

---
 python/aces/lutFormats/Sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 6d1ebd6..6863088 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -146,11 +146,13 @@ def generateLUT1DInverseResampled(resolution, samples, minInputValue, maxInputVa
             sampleIndexLow = lutIndexLow*channels + channel
             sampleIndexHigh = lutIndexHigh*channels + channel
 
-            if lutIndexLow == lutIndexHigh:
+            if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                 lutInterp = 0.0
             else:
                 lutInterp = (rangedValue - samples[sampleIndexLow])/(
                     samples[sampleIndexHigh] - samples[sampleIndexLow])
+                # Hold the end values outside of the channel's own range
+                lutInterp = max(0.0, min(1.0, lutInterp))
 
             # Find the output value
             outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
-- 
2.43.0


From 86bb5c8a1e0c6eb9d7ebca3c35609872d2ef1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 31/49] fix: half-domain inverse LUTs return to the input
 range, hold their ends and accept flat ends

---
 python/aces/lutFormats/Sampling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 6863088..1df3618 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -225,14 +225,17 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 sampleIndexLow = lutIndexLow*channels + channel
                 sampleIndexHigh = lutIndexHigh*channels + channel
 
-                if lutIndexLow == lutIndexHigh:
+                if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                     lutInterp = 0.0
                 else:
                     lutInterp = (inputValue - samples[sampleIndexLow])/(
                         samples[sampleIndexHigh] - samples[sampleIndexLow])
+                    # Hold the end values outside of the channel's own range
+                    lutInterp = max(0.0, min(1.0, lutInterp))
 
-                # Find the output value
+                # Find the output value, in the range [minIn, maxIn]
                 outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
+                outputInterpolated = outputInterpolated*(maxInputValue - minInputValue) + minInputValue
 
             inverseSample[channel] = outputInterpolated
 
-- 
2.43.0


From a34b620a83aa9b6941167c6b18385eebbe99d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 32/49] fix: blank lines in spi1d files are skipped

---
 python/aces/lutFormats/LutSPI.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..63d63b5 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,7 +170,9 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
-            if tokens[0] == "Version":
+            if not tokens:
+                continue
+            elif tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
                     break
-- 
2.43.0


From 2229b4d978c187d00a365dbc898ef317c11d8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 33/49] fix: csp 3D LUTs with a non-cubic lattice are read in
 the right order

---
 python/aces/lutFormats/LutCSP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..d459de1 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -334,7 +334,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
-- 
2.43.0


From fe9c7c757172eb17a872fb1703fe6e5157962e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 34/49] fix: csp files need not have exactly one blank line
 between their sections

---
 python/aces/lutFormats/LutCSP.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index d459de1..698eb15 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -275,7 +275,6 @@ class LutFormatCSP(LutFormat.LutFormat):
                         #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
-                dataStart += 1
                 
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
@@ -309,7 +308,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
+                dataStart = dataStart+9
 
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
@@ -348,7 +347,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
                 # 1D LUT data
                 elif format == "1D":
@@ -370,7 +369,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
         #
         # Create ProcessNodes
-- 
2.43.0


From 29ff8147e729d9095dab3f6ff8748e2355ac94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 35/49] fix: csp 1D/3D LUTs can be written without an input
 shaper

---
 python/aces/lutFormats/LutCSP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 698eb15..8338e87 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -535,6 +535,13 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('\n')
 
             for c in range(3):
+                # Without an input shaper, the prelut is the identity
+                if not samples1dIn:
+                    fp.write('2\n')
+                    fp.write('%f %f\n' % (inputMin, inputMax))
+                    fp.write('0.0 1.0\n')
+                    continue
+
                 fp.write('%d\n' % lutResolution1dIn)
 
                 for s in range(lutResolution1dIn):
-- 
2.43.0


From 69c11da5d29c72155b10558d6801a177ab0b59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 36/49] fix: csp preluts may differ between channels and may
 have any output values

---
 python/aces/lutFormats/LutCSP.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 8338e87..1788153 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -172,7 +172,9 @@ class LutFormatCSP(LutFormat.LutFormat):
         outputResolution = inputResolution
 
         # If the prelut only affects the range, skip this step
-        if inputResolution > 2:
+        rangeOnly = (prelutR == prelutG and prelutR == prelutB and
+            inputResolution == 2 and prelutR[1] == [0.0, 1.0])
+        if not rangeOnly:
             outputResolution *= 2
 
         # Find the minimum and maximum input
@@ -195,7 +197,7 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelutpns.append(rangepn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        if not rangeOnly:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
@@ -213,15 +215,21 @@ class LutFormatCSP(LutFormat.LutFormat):
                 # For each channel
                 for channel in range(len(cspPreluts)):
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
+                    prelutResolution = len(cspPreluts[channel][0])
+                    for prelutIndex in range(prelutResolution):
                         if cspPreluts[channel][0][prelutIndex] > rangedValue:
                             break
 
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
-                    prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
-                        cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
+                    prelutIndexHigh = min(prelutResolution-1, prelutIndex)
+                    if cspPreluts[channel][0][prelutIndexLow] == cspPreluts[channel][0][prelutIndexHigh]:
+                        prelutInterp = 0.0
+                    else:
+                        prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
+                            cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
+                        # Hold the end values outside of the channel's own range
+                        prelutInterp = max(0.0, min(1.0, prelutInterp))
 
                     # Find the output value
                     outputInterpolationRange = (cspPreluts[channel][1][prelutIndexHigh] - cspPreluts[channel][1][prelutIndexLow])
-- 
2.43.0


From 30d9b53b8f721ade73044e7812ed3cfb13951e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 37/49] fix: OCIO matrices are tested for alpha terms entry by
 entry

---
 python/aces/convertOCIOtoCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..1b46f5b 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,8 +79,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
-- 
2.43.0


From ba59cb86b4063bb1777b5c4905f3fa31eefcbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 38/49] fix: converted OCIO matrices hold as many values as
 they declare and keep their offset

---
 python/aces/convertOCIOtoCLF.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 1b46f5b..2162246 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -85,6 +85,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
                 resolution = [3, 4, 3]
+                matrix = list(matrix[0:12])
                 matrix[3] = offset[0]
                 matrix[7] = offset[1]
                 matrix[11] = offset[2]
@@ -100,6 +101,15 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 resolution = [3, 3, 3]
                 matrix = matrix33
 
+        # A full 4x4 matrix takes its offset as a fifth column
+        elif len(matrix) == 16 and [o for o in offset if o != 0.0] != []:
+            matrix45 = []
+            for i in range(4):
+                matrix45.extend(list(matrix[i*4:(i+1)*4]) + [offset[i]])
+
+            resolution = [4, 5, 3]
+            matrix = matrix45
+
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-- 
2.43.0


From 66a9044e44ec6253682bbc836bb15a88bf089e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 39/49] fix: single-threaded filtering processes every row, not
 only row 5

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 1ca53c3467aba238a7dc2b4fd1821973c5105874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 40/49] fix: images with a single row can be filtered

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..774bf50 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From 85877efaa0453e4fb1d1fbcc34c9b127d5547171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 41/49] fix: images that can not be opened are reported, and
 numpy pixels are not compared to None

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 774bf50..2cc1a52 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From 180ce5b75726543985429d8cfbfce3067921b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 42/49] fix: integer images are written with the nearest code
 value, limited to the range of the bit depth

---
 python/aces/filterImageWithCLF.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2cc1a52..f89ca59 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -229,7 +229,8 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            # Nearest code value, as the pixels are float approximations of them
+            pixels8[i] = int(math.floor(max(0.0, min(255.0, pixels[i])) + 0.5))
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -239,15 +240,18 @@ def writePixelArray(outputPath,
         # them all as 16-bit / 65535. This bit shift will move the 10 or
         # 12 bit values back to the 16 bit range that OIIO expects.
         bitShift = 0
+        maxValue = 65535.0
         if bitDepth == clf.bitDepths["UINT10"]:
             bitShift = 6
+            maxValue = 1023.0
         elif bitDepth == clf.bitDepths["UINT12"]:
             bitShift = 4
+            maxValue = 4095.0
 
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
         # Cast to 16 bit and reset integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = int(math.floor(max(0.0, min(maxValue, pixels[i])) + 0.5)) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From 222118b14337b841432c339595fd4e88d2cacf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 43/49] fix: images with a bits-per-sample tag can be written
 as float

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index f89ca59..f00caf3 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -275,7 +275,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From 8b0000abc6492dad6373d0e6a45a5fba0c819436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 44/49] fix: convertCLFtoLUT keeps the --lutResolution3d it was
 given

---
 python/aces/convertCLFtoLUT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..ba9222d 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -196,7 +196,7 @@ def main():
         lutResolution3d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, shaperOutLutResolution) = (1024, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
-- 
2.43.0


From d21339e422364a1cce727e4ffa8f4d51cdac91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 45/49] fix: whole-number gamma values are not divided as
 integers

---
 python/aces/clf/ExtensionGamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index b6a0b31..9deed25 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,14 +151,14 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1))
+                    pivot = (offset[i]/(gamma[i]-1.0))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
-- 
2.43.0


From 5c67bf684d9067cb63281a083bf91a249b3f18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 46/49] fix: writing an array of infinities for an integer bit
 depth does not fail

---
 python/aces/clf/Array.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index d40b3cb..caf868f 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -145,16 +145,9 @@ class Array:
         else:
             columns = self._dimensions[1]
 
-        integers = self._valuesAreIntegers
-
         for n in range(len(self._values)/columns):
             sample = self._values[n*columns:(n+1)*columns]
 
-            # Integer values
-            if integers:
-                sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-
-            # Float Values
             # Floats encoded using bitwise equivalent hex or integer values
             if self._floatEncoding != 'string':
                 # Encoding options: 
-- 
2.43.0


From a3e0cda89e4f41939457ebc8afc6b8f02c698f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 47/49] fix: printing an array of an integer bit depth shows
 values that are not whole numbers

---
 python/aces/clf/Array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index caf868f..eed40bb 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -258,7 +258,7 @@ class Array:
         if rows > 10:
             for n in (range(3)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and [x for x in sample if not float(x).is_integer()] == []:
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
@@ -268,7 +268,7 @@ class Array:
 
             for n in (range(rows-3,rows)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and [x for x in sample if not float(x).is_integer()] == []:
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
@@ -276,7 +276,7 @@ class Array:
         else:
             for n in range(rows):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
+                if self._valuesAreIntegers and [x for x in sample if not float(x).is_integer()] == []:
                     sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
                 else:
                     sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
-- 
2.43.0


From 3bb5b29674b183893f996324d916ec4bdd2054af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 48/49] fix: Gamma, Log and ExposureContrast accept pixels with
 fewer than three channels

---
 python/aces/clf/ExtensionExposureContrast.py |  6 +++---
 python/aces/clf/ExtensionGamma.py            |  8 ++++----
 python/aces/clf/ExtensionLog.py              | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index da74aba..91ae370 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -139,7 +139,7 @@ class ExposureContrast(ProcessNode):
             outValue = values[p*stride:(p+1)*stride]
 
             if style == 'linear':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pivot*pow(max(0.0,(pow(2.0,exposure)*outValue[i]/pivot)), contrast)
@@ -147,7 +147,7 @@ class ExposureContrast(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'video':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
@@ -155,7 +155,7 @@ class ExposureContrast(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'log':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 9deed25..142154e 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -143,19 +143,19 @@ class Gamma(ProcessNode):
             outValue = values[p*stride:(p+1)*stride]
 
             if style == 'basicFwd':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
                     outValue[i] = pow(max(0.0, outValue[i]), gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'basicRev':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
                     outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = (offset[i]/(gamma[i]-1.0))
@@ -167,7 +167,7 @@ class Gamma(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveRev':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index e7aeade..71893c4 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -167,7 +167,7 @@ class Log(ProcessNode):
             outValue = values[p*stride:(p+1)*stride]
 
             if style == 'log10':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = math.log10(max(outValue[i], FLOAT_MIN))
@@ -175,7 +175,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'log2':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = math.log10(max(outValue[i], FLOAT_MIN))/math.log10(2.0)
@@ -183,7 +183,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'antiLog10':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pow(10.0, outValue[i])
@@ -191,7 +191,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'antiLog2':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pow(2.0, outValue[i])
@@ -199,7 +199,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'logToLin':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     linearRefBlack = pow(10.0, min(-0.00001, (refBlack[i]-refWhite[i])*0.002/gamma[i]))
                     gain = (highlight[i] - shadow[i])/(1.0 - linearRefBlack)
 
@@ -211,7 +211,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'linToLog':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     linearRefBlack = pow(10.0, min(-0.00001, (refBlack[i]-refWhite[i])*0.002/gamma[i]))
                     gain = (highlight[i] - shadow[i])/(1.0 - linearRefBlack)
 
-- 
2.43.0


From 4294a29dcde8bb1ccda5394bbc266e0e266d1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:32 +0000
Subject: [PATCH 49/49] fix: a moncurve Gamma without gamma or offset for a
 channel does not divide by zero

---
 python/aces/clf/ExtensionGamma.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 142154e..eea7405 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -158,6 +158,15 @@ class Gamma(ProcessNode):
                 for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
+                    # Without a power there is only the linear segment,
+                    # without an offset only the power
+                    if gamma[i] == 1.0:
+                        outValue[i] = normalizedToBitDepth(outValue[i]/(offset[i] + 1.0), outBitDepth)
+                        continue
+                    if offset[i] == 0.0:
+                        outValue[i] = normalizedToBitDepth(pow(max(0.0, outValue[i]), gamma[i]), outBitDepth)
+                        continue
+
                     pivot = (offset[i]/(gamma[i]-1.0))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
@@ -170,6 +179,13 @@ class Gamma(ProcessNode):
                 for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
+                    if gamma[i] == 1.0:
+                        outValue[i] = normalizedToBitDepth(outValue[i]*(offset[i] + 1.0), outBitDepth)
+                        continue
+                    if offset[i] == 0.0:
+                        outValue[i] = normalizedToBitDepth(pow(max(0.0, outValue[i]), 1.0/gamma[i]), outBitDepth)
+                        continue
+
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
                     if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
-- 
2.43.0

