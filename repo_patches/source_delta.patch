From 43e089364ca17ea211920dcb3d6ae7ed8e197352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 01/28] fix: ExposureContrast kept the pixel index in the
 variable of its log pivot, and took extra channels from the first pixel

---
 python/aces/clf/ExtensionExposureContrast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..17694b8 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -156,14 +156,14 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From 8c98f8d0469276ab692163c7838d073ec46aba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 02/28] fix: single-threaded filtering processed row 5 only

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 5de968f943c68d2c175932634a0f5f2dd5b9b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 03/28] fix: progress report of the filter divided by zero for
 images of one row

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..774bf50 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From e6feafaa0ca4ee365495d2b58735aa621e67d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 04/28] fix: half-float images could not be filtered, the pixel
 array was compared with None by value

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 774bf50..ab522c8 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From 307fd016fe8d29d1dba352a86719bc42518d711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 05/28] fix: an image that cannot be opened raised ValueError
 instead of being reported

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ab522c8..2cc1a52 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
-- 
2.43.0


From 7163ba7861df085b297a3a442feacff2983984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 06/28] fix: float output of an image with bits-per-sample
 metadata raised KeyError

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2cc1a52..d11b7af 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -271,7 +271,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From 11d30f6139acd7cfb1b8fe6ed70f5edd4c5de657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 07/28] fix: the worker processes of a filter run were never
 released

---
 python/aces/filterImageWithCLF.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index d11b7af..db5c2a0 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -537,6 +537,7 @@ def filterImageWithCLF(inputPath,
     # Multi-threaded execution
     if multithreaded > 1:
         print( "Filtering image - multithreaded (%d threads)" % multithreaded )
+        pool = None
         try:
             pool = Pool(processes=multithreaded)
 
@@ -582,6 +583,11 @@ def filterImageWithCLF(inputPath,
             traceback.print_exc()
             print( '-'*60 )
             return
+        finally:
+            # Release the worker processes
+            if pool is not None:
+                pool.terminate()
+                pool.join()
 
     # Single-threaded execution
     else:
-- 
2.43.0


From 2ad9c6294e2016a588c444cae9992ff6b21b4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 08/28] fix: ctl 1D export wrote the red channel for all three
 channels

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From c88763fb4dbdaffce8dbcb9ceedfb3a7a828904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 09/28] fix: truncated spi1d and spi3d files were imported with
 the samples that were left

---
 python/aces/lutFormats/LutSPI.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..0c6435c 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -188,6 +188,9 @@ class LutFormatSPI(LutFormat.LutFormat):
             #else:
             #    print( "Skipping line : %s" % tokens )
 
+        if resolution[0]*resolution[1] == 0 or len(samples) < resolution[0]*resolution[1]:
+            raise ValueError("Incomplete spi1d file : %s" % lutPath)
+
         #
         # Create ProcessNodes
         #
@@ -263,6 +266,10 @@ class LutFormatSPI(LutFormat.LutFormat):
                         tokens = map(float, line.split())
                         samples.extend(tokens[3:]) 
 
+        sampleCount = resolution[0]*resolution[1]*resolution[2]*3
+        if sampleCount == 0 or len(samples) < sampleCount:
+            raise ValueError("Incomplete spi3d file : %s" % lutPath)
+
         #
         # Create ProcessNodes
         #
-- 
2.43.0


From d0cce7b4e8669cdc64d1ac39b7dd2fb0a0878e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 10/28] fix: truncated csp files were imported with zeros for
 the missing samples

---
 python/aces/lutFormats/LutCSP.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..452c8ae 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -252,6 +252,8 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelut = []
         minInputValue = 0.0
         maxInputValue = 1.0
+        entries = 0
+        entriesRead = 0
 
         tokens = lines[0].split()
         if tokens[0] == "CSPLUTV100":
@@ -325,7 +327,8 @@ class LutFormatCSP(LutFormat.LutFormat):
                     # CSP incremements LUT samples red, then green, then blue
                     # CLF incremements LUT samples blue, then green, then red 
                     # so we need to move samples around
-                    samples = [0.0]*resolution[0]*resolution[1]*resolution[2]*3
+                    entries = resolution[0]*resolution[1]*resolution[2]
+                    samples = [0.0]*entries*3
                     cspIndex = 0
                     for line in lines[dataStart:]:
                         # Convert from sample number to LUT index, CSP-style
@@ -348,11 +351,15 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
+                            if cspIndex < entries:
+                                entriesRead += 1
+
                         cspIndex += 1
 
                 # 1D LUT data
                 elif format == "1D":
-                    samples = [0.0]*resolution[0]*3
+                    entries = resolution[0]
+                    samples = [0.0]*entries*3
 
                     cspIndex = 0
                     for line in lines[dataStart:]:
@@ -370,8 +377,14 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
+                            if cspIndex < entries:
+                                entriesRead += 1
+
                         cspIndex += 1
 
+        if entries == 0 or entriesRead < entries:
+            raise ValueError("Incomplete csp file : %s" % lutPath)
+
         #
         # Create ProcessNodes
         #
-- 
2.43.0


From 9266c411014f8494653d81ddaa3247a58b67ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 11/28] fix: saving a transform with text outside ASCII failed
 and left an empty file

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..0fc522b 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml().encode('UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From 21532485e61aa5b55402b047bf974c4c37ef36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 12/28] fix: a save that failed left its file open, and its
 buffered data could reach the file later

---
 python/aces/clf/ProcessList.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 0fc522b..71513dc 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -154,9 +154,8 @@ class ProcessList:
         if writeGzip:
             if getFeatureCompatibility() & featureSets["Duiker Research"]:
                 prettyString = self.xmlPrettify(document, clfPath)
-                f = gzip.open(clfPath, 'wb')
-                f.write(prettyString)
-                f.close()
+                with gzip.open(clfPath, 'wb') as f:
+                    f.write(prettyString)
             else:
                 msg = "Unsupported feature : write gzipped file"
                 #print( "ProcessList::writeFile - %s" % msg )
@@ -169,9 +168,8 @@ class ProcessList:
             
             # Pretty saving to to disk
             prettyString = self.xmlPrettify(document, clfPath)
-            fp = open(clfPath, 'wb')
-            fp.write(prettyString)
-            fp.close()
+            with open(clfPath, 'wb') as fp:
+                fp.write(prettyString)
 
         return True
     # writeFile
-- 
2.43.0


From 78d9ab4787bf42da5c366b11699c317169b2783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 13/28] fix: errors found while reading a transform were hidden
 or added its nodes twice, and files were left open

---
 python/aces/clf/ProcessList.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 71513dc..12a9728 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -236,23 +236,19 @@ class ProcessList:
         if getFeatureCompatibility() & featureSets["Duiker Research"]:
             # Try to read as gzipped XML file
             try:
-                f = gzip.open(clfPath, 'rb')
-                tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
-                f.close()
+                with gzip.open(clfPath, 'rb') as f:
+                    tree = etree.parse(f)
 
             # Read as normal XML otherwise
-            except:
+            except Exception:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
 
         # Read as XML otherwise
         else:
             tree = etree.parse(clfPath)
-            root = tree.getroot()
-            self.read(root, strict)
+
+        root = tree.getroot()
+        self.read(root, strict)
     # readFile
 
     # Attributes
-- 
2.43.0


From e0d312e8b9b7c011ee28a7e8cec7d3db5c5b2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 14/28] fix: the namespace of a transform was lost when it was
 loaded

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 12a9728..97cb252 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -185,6 +185,10 @@ class ProcessList:
     def read(self, element, strict=False):
         root = element
 
+        # Store the namespace. The XML parser moves it from the attributes to the tag
+        if root.tag.startswith('{'):
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Store attributes
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
-- 
2.43.0


From 87a8a85e5aa844e6730b14eae1b9b70bfff33759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 15/28] fix: nodes of a group were bypassed with the Autodesk
 extensions switched off

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..0de04d0 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if (processNode.getAttribute('bypass') == None or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From 93fe2fc21e645e754993e867477e204f407fc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 16/28] fix: strict loading did not look into groups

---
 python/aces/clf/ExtensionGroup.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 0de04d0..e748ab2 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -81,6 +82,11 @@ class Group(ProcessNode):
         return None
 
     # Read / Write
+    def read(self, element, strict=False):
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def write(self, tree, writeSelfContained=False):
         node = ProcessNode.write(self, tree)
 
@@ -101,15 +107,33 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+
+                # Check that a given ProcessNode class is compatible with 
+                # the current feature set
+                if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+                    not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+                    (elementType in ["Group"] and
+                        not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+                    msg = "Unsupported feature : ProcessNode type %s" % elementType
+                    if self._strict:
+                        raise Errors.UnsupportedExtensionError(msg)
+                    else:
+                        print( "Group::read - %s" % msg )
+
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg )
 
         return None
     # readChild
-- 
2.43.0


From 049c971fc47a8ffe1b986cc7a59176dd15330264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 17/28] fix: self-contained saves left out references inside
 groups and referenced lists, and applied bypassed ones

---
 python/aces/clf/ExtensionGroup.py     |  8 ++++++--
 python/aces/clf/ExtensionReference.py | 11 +++++++++++
 python/aces/clf/ProcessList.py        |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index e748ab2..6e467b7 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -63,6 +63,7 @@ class Group(ProcessNode):
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
         self._strict = False
+        self._writeReferencedNodes = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -81,6 +82,9 @@ class Group(ProcessNode):
                 return processNode
         return None
 
+    def setWriteReferencedNodes(self, writeReferencedNodes):
+        self._writeReferencedNodes = writeReferencedNodes
+
     # Read / Write
     def read(self, element, strict=False):
         self._strict = strict
@@ -93,8 +97,8 @@ class Group(ProcessNode):
         # Add ProcessNode elements
         for process in self._processes:
             # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, ProcessList.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
+            if isinstance(process, (ProcessList.getClass("Reference"), Group)):
+                process.setWriteReferencedNodes(writeSelfContained or self._writeReferencedNodes)
             process.write(node)
         
         return node
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..e1bb7ec 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -107,7 +107,18 @@ class Reference(ProcessNode):
     def write(self, tree):
         if self._writeReferencedNodes:
             processes = self._processList.getProcesses()
+
+            # Nodes that are bypassed together are kept together
+            if self.getAttribute('bypass') != None:
+                tree = etree.SubElement(tree, 'Group')
+                for key, value in self._attributes.iteritems():
+                    if not key in ['alias', 'path', 'basePath']:
+                        tree.set(key, "%s" % value)
+
             for process in processes:
+                # References can be nested
+                if hasattr(process, 'setWriteReferencedNodes'):
+                    process.setWriteReferencedNodes(True)
                 process.write(tree)
             return tree
         else:
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 97cb252..f5a8a69 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -138,7 +138,7 @@ class ProcessList:
         # Add ProcessNode elements
         for process in self._processes:
             # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, self.getClass("Reference")):
+            if isinstance(process, (self.getClass("Reference"), self.getClass("Group"))):
                 process.setWriteReferencedNodes(writeSelfContained)
             process.write(tree)
         
-- 
2.43.0


From 7f3ef1bb521314e4c6655bbc6e65e000054b811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 18/28] fix: a referenced file that could not be reached was
 passed over like a missing one

---
 python/aces/clf/ExtensionReference.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index e1bb7ec..fd1dd40 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import errno
 import ProcessList
 from ProcessNode import *
 
@@ -92,10 +93,17 @@ class Reference(ProcessNode):
 
     def setPaths(self, path='', basePath='', alias=''):
         self._resolvedPath = resolvePath(path, basePath, alias)
-        if self._resolvedPath != None and os.path.exists(self._resolvedPath):
-            self._processList = ProcessList.ProcessList(self._resolvedPath)
-        else:
-            self._processList = None
+        processList = None
+        if self._resolvedPath != None:
+            # A file that is missing is passed over, one that cannot be reached is an error
+            try:
+                os.stat(self._resolvedPath)
+            except OSError, e:
+                if not e.errno in [errno.ENOENT, errno.ENOTDIR]:
+                    raise
+            else:
+                processList = ProcessList.ProcessList(self._resolvedPath)
+        self._processList = processList
     # setPaths
 
     def setWriteReferencedNodes(self, writeReferencedNodes):
-- 
2.43.0


From e27af49afc8079ad68ca24e76ac8750aaa958575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 19/28] fix: spi3d files with lines cut short or samples
 missing were imported, values were not placed by their indices

---
 python/aces/lutFormats/LutSPI.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 0c6435c..d05de49 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -257,17 +257,25 @@ class LutFormatSPI(LutFormat.LutFormat):
                     tokens = map(int, lines[2].split())
                     resolution = tokens
 
-                    # This assumes that the value are printed in order
-                    # with blue incrementing fastest like the CLF specification
-                    # This is generally true, but should be generalized at some
-                    # point to take into account the indices printed as the 
-                    # first three values on each line
+                    # The first three values on each line are the indices of
+                    # the sample. The CLF specification has blue incrementing
+                    # fastest
+                    samples = [None]*(resolution[0]*resolution[1]*resolution[2]*3)
                     for line in lines[3:]:
-                        tokens = map(float, line.split())
-                        samples.extend(tokens[3:]) 
+                        tokens = line.split()
+                        if tokens == []:
+                            continue
+                        if len(tokens) != 6:
+                            raise ValueError("Malformed spi3d file : %s" % lutPath)
 
-        sampleCount = resolution[0]*resolution[1]*resolution[2]*3
-        if sampleCount == 0 or len(samples) < sampleCount:
+                        (r, g, b) = map(int, tokens[:3])
+                        if not (0 <= r < resolution[0] and 0 <= g < resolution[1] and 0 <= b < resolution[2]):
+                            raise ValueError("Malformed spi3d file : %s" % lutPath)
+
+                        index = ((r*resolution[1] + g)*resolution[2] + b)*3
+                        samples[index:index+3] = map(float, tokens[3:])
+
+        if samples == [] or None in samples:
             raise ValueError("Incomplete spi3d file : %s" % lutPath)
 
         #
-- 
2.43.0


From b8cbd2f211e5d2fd8ad93aa889015e5b1a6ade2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 20/28] fix: csp files with fewer prelut values than announced
 were imported

---
 python/aces/lutFormats/LutCSP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 452c8ae..6aceb24 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -308,6 +308,11 @@ class LutFormatCSP(LutFormat.LutFormat):
                     [prelutGreenInput, prelutGreenOutput],
                     [prelutBlueInput, prelutBlueOutput]]
 
+                prelutResolutions = [prelutRedResolution, prelutGreenResolution, prelutBlueResolution]
+                for (prelutInput, prelutOutput), prelutResolution in zip(prelut, prelutResolutions):
+                    if len(prelutInput) != prelutResolution or len(prelutOutput) != prelutResolution:
+                        raise ValueError("Incomplete csp file : %s" % lutPath)
+
                 #
                 # Read LUT data
                 #
-- 
2.43.0


From f4974d035b6695571ebf3c50b634a718bbfb682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 21/28] fix: exports with an output shaper wrote the inverse of
 the input shaper instead

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..6d1ebd6 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From 256186d0e5aaf44afc5766ff00e6dfc578c912fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 22/28] fix: colour configurations were converted without the
 steps that are not supported

---
 python/aces/convertOCIOtoCLF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..da982d6 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -74,7 +74,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     elif len(matrix) == 9:
         resolution = [3, 3, 3]
     else:
-        print( "Matrix resolution with %d entries unsupported" % len(matrix) )
+        raise ValueError("Matrix resolution with %d entries unsupported" % len(matrix))
 
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
@@ -103,8 +103,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-        print( "Matrix inverse not currently supported")
-        return None
+        raise ValueError("Matrix inverse not currently supported")
 
     return mpn1
 
@@ -121,7 +120,7 @@ def convertLogToProcessNode(base, direction):
         else:
             log = clf.Log(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "log", "log", "antiLog2")
     else:
-        print( "Log base %s not supported" % (base))
+        raise ValueError("Log base %s not supported" % (base))
     
     return log
 
@@ -177,7 +176,7 @@ def convertTransformsToProcessNodes( ocioTransform,
 
     else:
         if ocioTransform:
-            print( "Unsupported OCIO transform type : %s" % ocioTransform )
+            raise ValueError("Unsupported OCIO transform type : %s" % ocioTransform)
 
     return pns
 
-- 
2.43.0


From 303f099f3215cae5b5435fd3afe166a48524bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 23/28] fix: the offset of a colour configuration matrix was
 dropped if its first entry is zero

---
 python/aces/convertOCIOtoCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index da982d6..7bdb379 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,8 +79,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
-- 
2.43.0


From 04f72bfd469709f38cc35fcc019ffb876177c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 24/28] fix: ExposureContrast nodes of style video and log
 could not be processed

---
 python/aces/clf/ExtensionExposureContrast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 17694b8..64996d6 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -148,7 +150,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 45ecfa10b041b29968dfd7d3ad4dc7eb9900c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 25/28] fix: csp 3D tables with different sizes per axis were
 imported in a wrong order

---
 python/aces/lutFormats/LutCSP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 6aceb24..756ece9 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -342,7 +342,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
-- 
2.43.0


From 1295bbce2ec40aff8f4df96de85317b09200671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 26/28] fix: csp files without a blank line after the preluts
 were imported with a wrong table

---
 python/aces/lutFormats/LutCSP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 756ece9..6fe2f7e 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -316,7 +316,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
+                dataStart = dataStart+9
 
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
-- 
2.43.0


From 9b95f51c9df6e338ee10885429ca0e796b640124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 27/28] fix: damaged csp files whose announced sizes are no
 sizes were imported

---
 python/aces/lutFormats/LutCSP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 6fe2f7e..ded1e43 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -387,7 +387,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                         cspIndex += 1
 
-        if entries == 0 or entriesRead < entries:
+        if resolution == [] or len(resolution) != {"1D": 1, "3D": 3}[format] or min(resolution) < 1 or entriesRead < entries:
             raise ValueError("Incomplete csp file : %s" % lutPath)
 
         #
-- 
2.43.0


From ca1764753ab95a9bbdba9d6fc3e78e2ad1189cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 28/28] fix: nodes processing an array or list directly
 overwrote the caller's values

---
 python/aces/clf/ASCCDL.py                    | 3 ++-
 python/aces/clf/ExtensionExposureContrast.py | 3 ++-
 python/aces/clf/ExtensionGamma.py            | 4 +++-
 python/aces/clf/ExtensionLog.py              | 3 ++-
 python/aces/clf/LUT1D.py                     | 4 +++-
 python/aces/clf/LUT3D.py                     | 4 +++-
 python/aces/clf/Range.py                     | 4 +++-
 7 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..9ea00a6 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
 import xml.etree.ElementTree as etree
 
 from ProcessNode import *
@@ -170,7 +171,7 @@ class ASCCDL(ProcessNode):
         # Support CLF spec and Autodesk CTF style keywords
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(value)
 
             if style == 'Fwd' or style == 'v1.2_Fwd':
                 for i in range(3):
diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 64996d6..73444c9 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
 import math
 
 from ProcessNode import *
@@ -136,7 +137,7 @@ class ExposureContrast(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(value)
 
             if style == 'linear':
                 for i in range(3):
diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..c88f9c8 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 
 #
@@ -140,7 +142,7 @@ class Gamma(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(value)
 
             if style == 'basicFwd':
                 for i in range(3):
diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..a673aba 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
 import math
 
 from ProcessNode import *
@@ -164,7 +165,7 @@ class Log(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(value)
 
             if style == 'log10':
                 for i in range(3):
diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..0f7aec9 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 from Array import Array
 from IndexMap import IndexMap
@@ -166,7 +168,7 @@ class LUT1D(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(value)
 
             for i in range(min(3, stride)):
                 # Run through per-channel Index Map then normalize
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..6a6c3d0 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 from Array import Array
 from IndexMap import IndexMap
@@ -152,7 +154,7 @@ class LUT3D(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(value)
 
             # Run each channel through the index map, or base normalization
             for i in range(min(3, len(value))):
diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..4460ed2 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 
 class Range(ProcessNode):
@@ -145,7 +147,7 @@ class Range(ProcessNode):
         '''
 
         # Actually process a value or two
-        outValue = value
+        outValue = copy.copy(value)
         for i in range(len(value)):
             # Convert to normalized range
             outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-- 
2.43.0

