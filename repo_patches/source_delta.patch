From 92c3515632e716637c19d9834f52751e27756b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 01/98] fix: end csvAndLinesReader with its input (PEP 479),
 CSV grant files were always reported bad

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From 0dc02c8f274d52a776df2c5b2a809cce9dd50353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 02/98] fix: use Graph.nodes, networkx 2.4 removed Graph.node
 and Graph.nodes_iter

---
 metaknowledge/diffusion.py       | 16 ++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From d2652bc2c45d2fd303160631b2af276873b00cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 03/98] fix: wosParser hid read errors and interrupts,
 returning part of the file as if it were all of it

---
 metaknowledge/WOS/recordWOS.py   |  2 ++
 metaknowledge/WOS/wosHandlers.py | 11 +++--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..2df1fde 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -183,6 +183,8 @@ def recordParser(paper):
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
             #No new tag append line to current tag (last tag in tagList)
+            if len(tagList) < 1:
+                raise BadWOSFile("Record starts without a field tag on line {} : {}".format(l[0], l[1]))
             tagList[-1][1].append(l[1][3:-1])
         else:
             #New tag create new entry at the end of tagList
diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..afbc937 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -77,7 +77,7 @@ def wosParser(isifile):
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
                                 s = f.__next__()[1]
-                        except:
+                        except (StopIteration, UnicodeDecodeError):
                             error =  BadWOSFile("The file {} was not terminated corrrectly caused the following error:\n{}".format(isifile, str(e)))
             try:
                 f.__next__()
@@ -88,14 +88,9 @@ def wosParser(isifile):
     except UnicodeDecodeError:
         try:
             error =  BadWOSFile("'{}' has a unicode issue on line: {}.".format(isifile, f.__next__()[0]))
-        except:
+        except (StopIteration, UnicodeDecodeError, ValueError):
             #Fallback needed incase f.__next__() causes issues
             error =  BadWOSFile("'{}' has a unicode issue. Probably when being opened or possibly on the first line".format(isifile))
     except StopIteration:
         error =  BadWOSFile("The file '{}' ends before EF was found".format(isifile))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return plst, error
+    return plst, error
-- 
2.43.0


From eb7d8b17645c7eaed732d9fadb8cac05a728542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 04/98] fix: wosParser dropped malformed records without
 reporting an error

---
 metaknowledge/WOS/wosHandlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index afbc937..6a3906f 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -77,6 +77,8 @@ def wosParser(isifile):
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
                                 s = f.__next__()[1]
+                            if error is None:
+                                error = BadWOSFile("A record in '{}' was skipped as it caused the following error:\n{}".format(isifile, str(e)))
                         except (StopIteration, UnicodeDecodeError):
                             error =  BadWOSFile("The file {} was not terminated corrrectly caused the following error:\n{}".format(isifile, str(e)))
             try:
-- 
2.43.0


From 5f613fdbb1b426efbee2acc018b456e779fc2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 05/98] fix: grant parsers reported read errors as malformed
 files, which the directory cache then remembered

---
 metaknowledge/grants/baseGrant.py  | 10 ++++------
 metaknowledge/grants/cihrGrant.py  | 10 ++++------
 metaknowledge/grants/nsercGrant.py | 10 ++++------
 3 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c2e8470..23ab0b0 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -178,12 +178,10 @@ def parserFallbackGrantFile(fileName, encoding = 'latin-1', dialect = 'excel'):
             reader = csvAndLinesReader(f, fieldnames = None, dialect = dialect)
             for lineNum, lineString, lineDict in reader:
                 grantSet.add(FallbackGrant(lineString, lineDict, sFile = fileName, sLine = lineNum))
+    except OSError:
+        #The file could not be read, this says nothing about its contents
+        raise
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a CIHR grant file.".format(fileName))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return grantSet, error
+    return grantSet, error
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..7e90a8f 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -49,12 +49,10 @@ def parserCIHRfile(fileName):
             reader = csvAndLinesReader(f, fieldnames = None, dialect = 'excel')
             for lineNum, lineString, lineDict in reader:
                 grantSet.add(CIHRGrant(lineString, lineDict, sFile = fileName, sLine = lineNum))
+    except OSError:
+        #The file could not be read, this says nothing about its contents
+        raise
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a CIHR grant file.".format(fileName))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return grantSet, error
+    return grantSet, error
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..03c5743 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -95,12 +95,10 @@ def parserNSERCfile(fileName):
                             break
                 else:
                     grantSet.add(G)
+    except OSError:
+        #The file could not be read, this says nothing about its contents
+        raise
     except Exception:
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a NSERC grant file.".format(fileName))
-    except KeyboardInterrupt as e:
-        error = e
-    finally:
-        if isinstance(error, KeyboardInterrupt):
-            raise error
-        return grantSet, error
+    return grantSet, error
-- 
2.43.0


From 427e5668ebe46558b952b7df5e178bf5853c9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 06/98] fix: ids of CIHR, fallback and keyless NSERC grants
 changed with every process

---
 metaknowledge/grants/baseGrant.py  | 7 ++++++-
 metaknowledge/grants/cihrGrant.py  | 4 ++--
 metaknowledge/grants/nsercGrant.py | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index 23ab0b0..a313085 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -4,6 +4,7 @@ except ImportError:
     import collections
     collections.abc = collections
 import csv
+import hashlib
 import os
 
 from ..mkRecord import Record
@@ -125,6 +126,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
+def stableHash(s):
+    #The builtin hash() of a string is different for each process so cannot be used for an id
+    return int(hashlib.md5(s.encode('utf-8', 'surrogatepass')).hexdigest()[:16], 16)
+
 class FallbackGrant(Grant):
     """A subclass of [Grant](./grants.html#metaknowledge.grants.Grant), it has the same attributes and is returned from the fall back constructor for grants.
     """
@@ -133,7 +138,7 @@ class FallbackGrant(Grant):
     def __init__(self, original, grantdDict, sFile = "", sLine = 0):
         #We do not known anything about the structure of the grant so there is nothing to check about causing an error
         #The id needs to be unique so hashing the original will always give us that
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
         Grant.__init__(self, original, grantdDict, idValue, False, None, sFile = sFile, sLine = sLine)
 
 def isFallbackGrantFile(fileName, useFileName = True, encoding = 'latin-1', dialect = 'excel'):
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7e90a8f..ba55192 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -1,7 +1,7 @@
 import os.path
 import csv
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class CIHRGrant(Grant):
@@ -13,7 +13,7 @@ class CIHRGrant(Grant):
             error = BadGrant("Missing 'PI Names'")
 
         #Source file - line number - 6 character long numeric hash
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
 
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 03c5743..4704ecb 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -1,7 +1,7 @@
 import csv
 import os.path
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class NSERCGrant(Grant):
@@ -11,7 +11,7 @@ class NSERCGrant(Grant):
         if grantdDict.get('Cle', '') == '':
             bad = True
             error = BadGrant("Missing 'CLE'")
-            idValue = "NSERC:{}".format(hash(original))
+            idValue = "NSERC:{}".format(stableHash(original))
         else:
             idValue = "NSERC:{}".format(grantdDict.get('Cle', ''))
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
-- 
2.43.0


From 955ef62f9324b5fdb8af23823f23924791c39969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 07/98] fix: a damaged or unreadable directory cache made the
 directory unloadable

---
 metaknowledge/mkCollection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..4dab548 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -388,8 +388,13 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         if os.path.isfile(cacheName):
             try:
                 self.__dict__ = loadCache(cacheName, flist, name, extension)
-            except (cacheError, KeyError, FileNotFoundError):
-                os.remove(cacheName)
+            except Exception:
+                #A damaged cache can raise nearly anything while being unpickled
+                #and whatever is wrong with it the source files can still be read
+                try:
+                    os.remove(cacheName)
+                except OSError:
+                    pass
                 return False
             else:
                 return True
-- 
2.43.0


From 6f19d6167028f7b116636ec7a18990e6cb6495fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 08/98] fix: failing to write the directory cache aborted the
 load and left half a cache behind

---
 metaknowledge/mkCollection.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 4dab548..555ecd4 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -408,8 +408,24 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         }
         for fileName in flist:
             dat["File dict"][fileName] =  os.stat(fileName).st_mtime
-        with open(cacheFile, 'wb') as f:
-            pickle.dump((dat, self), f)
+        #Other processes must never see half of a cache and one that cannot be
+        #written is not a reason to throw away the collection
+        tmpFile = '{0}.{2}{1}'.format(*os.path.splitext(cacheFile), os.getpid())
+        try:
+            f = open(tmpFile, 'xb')
+        except OSError:
+            return
+        try:
+            with f:
+                pickle.dump((dat, self), f)
+            os.replace(tmpFile, cacheFile)
+        except BaseException as e:
+            try:
+                os.remove(tmpFile)
+            except OSError:
+                pass
+            if not isinstance(e, Exception):
+                raise
 
 class CollectionWithIDs(Collection):
     """A [Collection](./Collection.html#metaknowledge.Collection) with a few extra methods that assume all the contained items have an id attribute and a bad attribute, e.g. [Records](./Record.html#metaknowledge.Record) or [Grants](./Grant.html#metaknowledge.grants.Grant).
-- 
2.43.0


From cd1514402c28c6c8689c5e1c35c2851d4634cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 09/98] fix: a source file changed during a cached load left a
 stale cache behind

---
 metaknowledge/grantCollection.py  | 3 ++-
 metaknowledge/mkCollection.py     | 8 ++++----
 metaknowledge/recordCollection.py | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..60540e8 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -70,6 +70,7 @@ class GrantCollection(CollectionWithIDs):
                         if fullF.endswith(extension) and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
+                        fileTimes = {f : os.stat(f).st_mtime for f in flist}
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
                         if self._loadFromCache(cacheName, flist, name, extension):
                             try:
@@ -132,7 +133,7 @@ class GrantCollection(CollectionWithIDs):
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
             if cached:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
-                self._createCache(cacheName, flist, name, extension)
+                self._createCache(cacheName, fileTimes, name, extension)
             try:
                 PBar.finish("Done making a GrantCollection of {} Grants".format(len(self)))
             except AttributeError:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 555ecd4..e770078 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -399,15 +399,15 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             else:
                 return True
 
-    def _createCache(self, cacheFile, flist, name, extension):
+    def _createCache(self, cacheFile, fileTimes, name, extension):
+        #fileTimes has to be from before the files were read, otherwise a change
+        #made while they are being read is never noticed
         dat = {
             "metaknowledge Version" : __version__,
-            "File dict" : {},
+            "File dict" : fileTimes,
             "Collection Name" : name,
             "File Extension" : extension,
         }
-        for fileName in flist:
-            dat["File dict"][fileName] =  os.stat(fileName).st_mtime
         #Other processes must never see half of a cache and one that cannot be
         #written is not a reason to throw away the collection
         tmpFile = '{0}.{2}{1}'.format(*os.path.splitext(cacheFile), os.getpid())
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..70e92fd 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -119,6 +119,7 @@ class RecordCollection(CollectionWithIDs):
                         if fullF.endswith(extension) and not fullF.endswith('mkRecordDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
+                        fileTimes = {f : os.stat(f).st_mtime for f in flist}
                         PBar.updateVal(0, "Trying to load from cache")
                         cacheName = os.path.join(inCollection, '{}.[{}].mkRecordDirCache'.format(os.path.basename(os.path.abspath(inCollection)), extension))
                         if self._loadFromCache(cacheName, flist, name, extension):
@@ -163,7 +164,7 @@ class RecordCollection(CollectionWithIDs):
                     pass
                 else:
                     PBar.updateVal(1, "Writing RecordCollection cache to {}".format(cacheName))
-                    self._createCache(cacheName, flist, name, extension)
+                    self._createCache(cacheName, fileTimes, name, extension)
             try:
                 PBar.finish("Done making a RecordCollection of {} Records".format(len(self)))
             except AttributeError:
-- 
2.43.0


From bc47fba52fd6f0ac04cded6c51921715615b3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 10/98] fix: GrantCollection counted its own cache as a source
 file and could not be made with cached from anything but a directory

---
 metaknowledge/grantCollection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 60540e8..09ce689 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -1,3 +1,4 @@
+import os
 import os.path
 try:
     import collections.abc
@@ -31,6 +32,7 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -67,7 +69,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         fileTimes = {f : os.stat(f).st_mtime for f in flist}
@@ -131,7 +133,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, fileTimes, name, extension)
             try:
-- 
2.43.0


From c45b733a69937cd67743c67068b0495430973795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 11/98] fix: what a directory loads to depended on the order
 the OS lists its files in

---
 metaknowledge/grantCollection.py  | 2 +-
 metaknowledge/recordCollection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 09ce689..1e46dd0 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -67,7 +67,7 @@ class GrantCollection(CollectionWithIDs):
                         name = "files-from-{}".format(inGrants)
                     grantsSet = set()
                     flist = []
-                    for f in os.listdir(inGrants):
+                    for f in sorted(os.listdir(inGrants)):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
                         if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 70e92fd..8f0b8f4 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -114,7 +114,7 @@ class RecordCollection(CollectionWithIDs):
                         name = "files-from-{}".format(inCollection)
                     recordsSet = set()
                     flist = []
-                    for f in os.listdir(inCollection):
+                    for f in sorted(os.listdir(inCollection)):
                         fullF = os.path.join(os.path.abspath(inCollection), f)
                         if fullF.endswith(extension) and not fullF.endswith('mkRecordDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
-- 
2.43.0


From 77464df8cab586e7e2a04b2da6cdaec5d3f11ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:52 +0000
Subject: [PATCH 12/98] fix: collections made from an iterable lost one-shot
 iterables and forgot the types of their contents

---
 metaknowledge/grantCollection.py  | 5 ++++-
 metaknowledge/recordCollection.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 1e46dd0..a3b32bb 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -126,10 +126,13 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                #The iterable may be one that can only be gone over once
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
+                    grantTypes.add(type(G).__name__)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8f0b8f4..4c85173 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -152,10 +152,13 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                #The iterable may be one that can only be gone over once
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
+                    recordTypes.add(type(R).__name__)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From 1c3d156d280686caf739d27f809a1c815039cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:41 +0000
Subject: [PATCH 13/98] fix: writeFile used the types of Records no longer in
 the collection and left its file open on errors

---
 metaknowledge/recordCollection.py | 36 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4c85173..a7c3bc6 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -226,27 +226,27 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `None`, if given the output file will written to _fanme_, if `None` the `RecordCollection`'s name's first 200 characters are used with the suffix .isi
         """
-        if len(self._collectedTypes) < 2:
+        #_collectedTypes also has the types of Records that were removed
+        writtenTypes = {type(R).__name__ for R in self._collection}
+        if len(writtenTypes) == 1:
             recEncoding = self.peek().encoding()
         else:
             recEncoding = 'utf-8'
-        if fname:
-            f = open(fname, mode = 'w', encoding = recEncoding)
-        else:
-            f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
-        if self._collectedTypes == {'WOSRecord'}:
-            f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
-            f.write("VR 1.0\n")
-        elif self._collectedTypes == {'MedlineRecord'}:
-            f.write('\n')
-        elif self._collectedTypes == {'ScopusRecord'}:
-            f.write("\ufeff{}\n".format(','.join(scopusHeader)))
-        for R in self._collection:
-            R.writeRecord(f)
-            f.write('\n')
-        if self._collectedTypes == {'WOSRecord'}:
-            f.write('EF')
-        f.close()
+        if not fname:
+            fname = self.name[:200] + '.txt'
+        with open(fname, mode = 'w', encoding = recEncoding) as f:
+            if writtenTypes == {'WOSRecord'}:
+                f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
+                f.write("VR 1.0\n")
+            elif writtenTypes == {'MedlineRecord'}:
+                f.write('\n')
+            elif writtenTypes == {'ScopusRecord'}:
+                f.write("\ufeff{}\n".format(','.join(scopusHeader)))
+            for R in self._collection:
+                R.writeRecord(f)
+                f.write('\n')
+            if writtenTypes == {'WOSRecord'}:
+                f.write('EF')
 
     def writeCSV(self, fname = None, splitByTag = None, onlyTheseTags = None, numAuthors = True, genderCounts = True, longNames = False, firstTags = None, csvDelimiter = ',', csvQuote = '"', listDelimiter = '|'):
         """Writes all the `Records` from the collection into a csv file with each row a record and each column a tag.
-- 
2.43.0


From 4564d815387d712c0fc66798bd62cea509ae47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 14/98] fix: Scopus and Medline tags without their own
 function, e.g. 'Funding Text', were reported as missing

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..fd9342b 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -56,7 +56,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x: x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..c554aa7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -93,7 +93,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x: x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From d2d41d394855771c65b9bdfc21a5b92e8ea44f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 15/98] fix: the last Scopus record lost a character if its
 file did not end with a newline

---
 metaknowledge/scopus/recordScopus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index c554aa7..4928fc7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -185,7 +185,10 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    #The last line of a file may not have a newline
+    if record.endswith('\n'):
+        record = record[:-1]
+    splitRecord = record.split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
-- 
2.43.0


From b36f99a6dc16253296fca904f67809552c8ded13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 16/98] fix: fields missing from a Scopus record raised a
 ValueError once it had been written and read back

---
 metaknowledge/scopus/recordScopus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 4928fc7..ca41cf7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -218,7 +218,9 @@ def scopusRecordParser(record, header = None):
                     valString = currentVal[1:-1]
                 except ValueError:
                     valString = currentVal[1:-1]
-            tagDict[key] = valString
+            #writeRecord() gives the fields a Record does not have as ""
+            if valString:
+                tagDict[key] = valString
         else:
             tagDict[key] = currentVal
     return tagDict
-- 
2.43.0


From 43e6a2285e1b497309da9781241c51f8ca7b6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 17/98] fix: the last Medline record lost a character if its
 file did not end with a newline

---
 metaknowledge/medline/recordMedline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index fd9342b..9afcd68 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -107,7 +107,8 @@ def medlineRecordParser(record):
     mostRecentAuthor = None
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
-        contents = line[6:-1]
+        #The last line of a file may not have a newline
+        contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4] == '-':
             tag = tmptag
             if tag == 'AU':
@@ -119,7 +120,7 @@ def medlineRecordParser(record):
             except KeyError:
                 tagDict[tag] = [contents]
         elif line[:6] == '      ':
-            tagDict[tag][-1] += '\n' + line[6:-1]
+            tagDict[tag][-1] += '\n' + contents
         elif line == '\n':
             break
         else:
-- 
2.43.0


From c0d32dc32b6651373d5ac67643b107268fb9475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 18/98] fix: Medline affiliations from before the first author
 were lost when the record was written

---
 metaknowledge/medline/recordMedline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 9afcd68..3b0b7f6 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -79,7 +79,9 @@ class MedlineRecord(ExtendedRecord):
                         authTags[split[0]] = ["{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)),' : '.join(split[1:]).replace('\n', '\n      '))]
             for tag, value in self._fieldDict.items():
                 if tag in authorBasedTags:
-                    continue
+                    #Those from before the first author
+                    for authVal in [v for v in authTags.get('None', []) if v.startswith(tag.ljust(4) + '-')]:
+                        f.write(authVal)
                 else:
                     for v in value:
                         f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v.replace('\n', '\n      ')))
-- 
2.43.0


From bf9ccb6ee6b50a64c24c7dc534f1da167dfb2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 19/98] fix: set operations dropped the errors of the left
 collection

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index e770078..c6f2b94 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From 28050eb98e73016e951bad611049ae749ac3e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 20/98] fix: mergeGraphs always failed when not incrementing
 edges

---
 metaknowledge/graphHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..3e04123 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -728,7 +728,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             except KeyError:
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
         else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
+            if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
-- 
2.43.0


From d90179b834595d5f69925db4bc37c165dcc08f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 21/98] fix: writing edge lists without their extra info, or
 any list with allSameAttribute, always failed

---
 metaknowledge/graphHelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3e04123..bcc0339 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -253,8 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
+                eDict = {'Source' : e[0], 'Target' : e[1]}
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
@@ -305,7 +304,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
-- 
2.43.0


From 192941b813fe7549f9e815baa78b3b2ba54ede21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 22/98] fix: graph files lost the characters the locale does
 not have, and readGraph changed newlines in them

---
 metaknowledge/graphHelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index bcc0339..0d77c0e 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), encoding = 'utf-8', newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), encoding = 'utf-8', newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
@@ -229,7 +229,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
             csvHeader = ['Source'] +  ['Target']
         count = 0
         PBar.updateVal(.01, "Opening file {}".format(name))
-        f = open(os.path.expanduser(os.path.abspath(name)), 'w', newline = '')
+        f = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8', newline = '')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting=csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         if extraInfo:
@@ -318,7 +318,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             csvHeader = ['ID'] + list(extraAttribs)
         count = 0
         PBar.updateVal(.10, "Opening '{}'".format(name))
-        f = open(name, 'w', newline = '')
+        f = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8', newline = '')
         outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
         outFile.writeheader()
         for n in grph.nodes(data = True):
-- 
2.43.0


From 0e2c5ba25cc65735e5966845d91db43f7b074ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 23/98] fix: writeCSV, makeDict and forNLP modified the lists
 of tags they were given, writeCSV without numAuthors lost columns

---
 metaknowledge/recordCollection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a7c3bc6..1dbdd37 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -297,10 +297,13 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
+        #These are modified so the ones that were given cannot be used
+        firstTags = list(firstTags)
         for i in range(len(firstTags)):
             if firstTags[i] in fullToTagDict:
                 firstTags[i] = fullToTagDict[firstTags[i]]
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
@@ -322,7 +325,7 @@ class RecordCollection(CollectionWithIDs):
         if numAuthors:
             csvWriterFields = retrievedFields + ["num-Authors"]
         else:
-            csvWriterFields = retrievedFields
+            csvWriterFields = list(retrievedFields)
         if genderCounts:
             csvWriterFields += ['num-Male', 'num-Female', 'num-Unknown']
         if splitByTag is None:
@@ -657,6 +660,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
+            extraColumns = list(extraColumns)
             for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
                 if builtinColumn in extraColumns:
                     extraColumns.remove(builtinColumn)
@@ -725,6 +729,7 @@ class RecordCollection(CollectionWithIDs):
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
-- 
2.43.0


From b1b2baaa70b321e32afdcff7164938fb4fd9ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 24/98] fix: localCitesOf raised a ValueError for every Record
 it was given

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 1dbdd37..4dde3d4 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1483,7 +1483,7 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
+        elif isinstance(rec, str):
             try:
                 recCite = self.getID(rec)
             except ValueError:
-- 
2.43.0


From 27516893bf3979341f52091d683613f660ea7f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 25/98] fix: localCiteStats failed on its progress display for
 all Records but WOSRecords

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4dde3d4..7248506 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1440,7 +1440,7 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.id))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
-- 
2.43.0


From ce79cd66019e8ded34fff47080999820da250921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 26/98] fix: adding RecordCollections dropped their errors

---
 metaknowledge/recordCollection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 7248506..754b8f1 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -191,6 +191,11 @@ class RecordCollection(CollectionWithIDs):
         for rec in other:
             new_col.add(rec)
 
+        for col in (self, other):
+            if getattr(col, 'bad', False):
+                new_col.bad = True
+            new_col.errors.update(getattr(col, 'errors', {}))
+
         return new_col
 
     def dropNonJournals(self, ptVal = 'J', dropBad = True, invert = False):
-- 
2.43.0


From b62e17bdc4ae5975cc8357ed92416a638aafedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 27/98] fix: networkMultiLevel nodes shared, and so changed,
 one list of attributes

---
 metaknowledge/mkCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index c6f2b94..67d435d 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -939,7 +939,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals.copy()
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -956,7 +956,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals.copy()
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -979,7 +979,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals.copy()
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From 0ee252216c6da360cab89655f46b87d6c36d48aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 28/98] fix: edgeAttribute of networkMultiLevel and
 networkMultiMode failed on repeated edges and split strings

---
 metaknowledge/mkCollection.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 67d435d..d7e80d2 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -887,9 +887,15 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
@@ -910,10 +916,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph.edges[node1, node2, edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
@@ -1263,6 +1266,10 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1286,10 +1293,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph.edges[node1, node2, edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From a04546522cc5dc8b56dcd0d2f07459c0d72a151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 29/98] fix: networkTwoMode and networkMultiMode lost the first
 count of nodes first seen without edges

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index d7e80d2..20388c9 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1163,9 +1163,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, type = tag1, count = 1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1318,9 +1318,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, type = vlst1[0], count = 1)
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From 9030658115edd808c49b97fd182a593cd6449e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 30/98] fix: weighted diffusion graphs with labeled edges did
 not label or count them

---
 metaknowledge/diffusion.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..a02e164 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,13 +114,9 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph[sVal][val][edgeVal]['weight'] += 1
                                             else:
-                                                attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, key = edgeVal, weight = 1)
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
-- 
2.43.0


From 79dc859b2ead80ea3fd8c0bca6736e58ab1a9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 31/98] fix: getInvestigators and getInstitutions of grants
 added to the tags list they were given

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 4704ecb..4e3ca52 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..fcd1399 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = list(tags) + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = list(tags) + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From 5ae93c56828b1ee607683e50cc12453151959159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 32/98] fix: journals added to the database were unusable until
 the next session, or raised an AttributeError

---
 metaknowledge/citation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..02a6a31 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -359,7 +359,9 @@ class Citation(collections.abc.Hashable):
         except KeyError:
             raise KeyError("This citation does not have a journal field.")
         else:
-            abbrevDict.update(d)
+            #None means it has not been read yet, it will contain the new value once it is
+            if abbrevDict is not None:
+                abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
-- 
2.43.0


From af402b4c89e6deadc15da23415c237939663d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 33/98] fix: updatej9DB emptied or half filled the database if
 a download failed and never merged names

---
 metaknowledge/journalAbbreviations/backend.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..38e4e5f 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -1,4 +1,5 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
+import urllib.error
 import urllib.request
 import string
 import os
@@ -111,17 +112,18 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
             os.mkdir(rawDir)
         _j9SaveCurrent(sDir = rawDir)
     dbLoc = os.path.join(os.path.normpath(os.path.dirname(__file__)), dbname)
+    try:
+        j9Dict = _getCurrentj9Dict()
+    except urllib.error.URLError:
+        raise urllib.error.URLError("Unable to access server, check your connection")
     try:
         with dbm.dumb.open(dbLoc, flag = 'c') as db:
-            try:
-                j9Dict = _getCurrentj9Dict()
-            except urllib.error.URLError:
-                raise urllib.error.URLError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
-                    for jName in v:
-                        if jName not in j9Dict[k]:
-                            j9Dict[k] += '|' + jName
+                    oldNames = db[k].decode('utf-8').split('|')
+                    newNames = [jName for jName in v if jName not in oldNames]
+                    if newNames:
+                        db[k] = '|'.join(oldNames + newNames)
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
-- 
2.43.0


From e4896b3feea12a7c0dbbd7dd44b5cbe8b9a25ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 34/98] fix: getj9dict regenerated the default database,
 endlessly, when a different one was missing

---
 metaknowledge/journalAbbreviations/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 38e4e5f..f940961 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -157,7 +157,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
-- 
2.43.0


From f34340c322a49d51a384b09643a99ef7e49e91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 35/98] fix: saving the raw journal pages changed the working
 directory and left the files open

---
 metaknowledge/journalAbbreviations/backend.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index f940961..7f97c2d 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -46,13 +46,10 @@ def _j9SaveCurrent(sDir = '.'):
     dname = os.path.normpath(sDir + '/' +  datetime.datetime.now().strftime("%Y-%m-%d_J9_AbbreviationDocs"))
     if not os.path.isdir(dname):
         os.mkdir(dname)
-        os.chdir(dname)
-    else:
-        os.chdir(dname)
     for urlID, urlString in j9urlGenerator(nameDict = True).items():
         fname = "{}_abrvjt.html".format(urlID)
-        f = open(fname, 'wb')
-        f.write(urllib.request.urlopen(urlString).read())
+        with open(os.path.join(dname, fname), 'wb') as f:
+            f.write(urllib.request.urlopen(urlString).read())
 
 def _getDict(j9Page):
     """Parses a Journal Title Abbreviations page
-- 
2.43.0


From dee24d0dd5474c51b1af626e9361555eccf891ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 36/98] fix: an interrupted or failed write could lose the
 whole journal abbreviations database

---
 metaknowledge/journalAbbreviations/backend.py | 59 ++++++++++++++++---
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 7f97c2d..19cf025 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -3,6 +3,8 @@ import urllib.error
 import urllib.request
 import string
 import os
+import shutil
+import contextlib
 import datetime
 import dbm.dumb
 
@@ -90,6 +92,45 @@ def _getCurrentj9Dict():
         j9Dict.update(d)
     return j9Dict
 
+@contextlib.contextmanager
+def _editDB(dbLoc):
+    """Opens a copy of the database at _dbLoc_ that only replaces the original once all the changes have been saved
+
+    Values must be set with [_setDB()](#metaknowledge.journalAbbreviations.backend._setDB), it never overwrites data so the old index remains valid if only the data file gets replaced.
+
+    For Backend
+    """
+    tmpLoc = '{}.{}.tmp'.format(dbLoc, os.getpid())
+    try:
+        for ext in ('.dat', '.dir'):
+            if os.path.isfile(dbLoc + ext):
+                shutil.copyfile(dbLoc + ext, tmpLoc + ext)
+        with dbm.dumb.open(tmpLoc, flag = 'c') as db:
+            yield db
+        for ext in ('.dat', '.dir'):
+            with open(tmpLoc + ext, 'rb+') as f:
+                os.fsync(f.fileno())
+        for ext in ('.dat', '.dir'):
+            os.replace(tmpLoc + ext, dbLoc + ext)
+    finally:
+        for ext in ('.dat', '.dir', '.bak'):
+            try:
+                os.remove(tmpLoc + ext)
+            except OSError:
+                pass
+
+def _setDB(db, values):
+    """Adds _values_ to _db_ without overwriting any of its data
+
+    For Backend
+    """
+    for k, v in values.items():
+        if k in db:
+            if db[k] == v.encode('utf-8'):
+                continue
+            del db[k]
+        db[k] = v
+
 def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
     """Updates the database of Journal Title Abbreviations. Requires an internet connection. The data base is saved relative to the source file not the working directory.
 
@@ -114,13 +155,13 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
     except urllib.error.URLError:
         raise urllib.error.URLError("Unable to access server, check your connection")
     try:
-        with dbm.dumb.open(dbLoc, flag = 'c') as db:
+        with _editDB(dbLoc) as db:
             for k, v in j9Dict.items():
                 if k in db:
                     oldNames = db[k].decode('utf-8').split('|')
                     newNames = [jName for jName in v if jName not in oldNames]
                     if newNames:
-                        db[k] = '|'.join(oldNames + newNames)
+                        _setDB(db, {k : '|'.join(oldNames + newNames)})
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
@@ -184,13 +225,13 @@ def addToDB(abbr = None, dbname = manualDBname):
     > The name of the database file, default is `metaknowledge.journalAbbreviations.manualDBname`.
     """
     dbLoc = os.path.normpath(os.path.dirname(__file__))
-    with dbm.dumb.open(dbLoc + '/' + dbname) as db:
+    with _editDB(dbLoc + '/' + dbname) as db:
         if isinstance(abbr, str):
-            db[abbr] = abbr
+            _setDB(db, {abbr : abbr})
         elif isinstance(abbr, dict):
             try:
-                db.update(abbr)
-            except TypeError:
+                _setDB(db, abbr)
+            except (TypeError, AttributeError):
                 raise TypeError("The keys and values of abbr must be strings.")
         elif abbr is None:
             pass
@@ -211,12 +252,12 @@ def excludeFromDB(abbr = None, dbname = manualDBname):
     > The name of the database file, default is `metaknowledge.journalAbbreviations.manualDBname`.
     """
     dbLoc = os.path.normpath(os.path.dirname(__file__))
-    with dbm.dumb.open(dbLoc + '/' + dbname) as db:
+    with _editDB(dbLoc + '/' + dbname) as db:
         if isinstance(abbr, str):
-            db[abbr] = ''
+            _setDB(db, {abbr : ''})
         elif isinstance(abbr, list) or isinstance(abbr, tuple):
             try:
-                db.update({k : '' for k in abbr})
+                _setDB(db, {k : '' for k in abbr})
             except TypeError:
                 raise TypeError("The keys and values of abbr must be strings.")
         elif abbr is None:
-- 
2.43.0


From 04c57d43f614da54e914589296ab474a08516736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 37/98] fix: an interrupted download of the gender data left a
 broken file behind that was used from then on

---
 metaknowledge/genders/nameGender.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..191c9e7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -2,8 +2,9 @@
 import zipfile
 import io
 import csv
+import os
 import os.path
-import urllib
+import urllib.request
 
 from ..mkExceptions import GenderException
 
@@ -34,9 +35,21 @@ def downloadData(useUK = False):
         namesFile = zipfile.ZipFile(zipFile).open(ukNamesPath)
     else:
         namesFile = zipfile.ZipFile(zipFile).open(americanNamesPath)
+    namesData = namesFile.read()
+    tmpPath = '{}.{}.tmp'.format(targetFilePath, os.getpid())
     try:
-        with open(targetFilePath, 'wb') as f:
-            f.write(namesFile.read())
+        try:
+            with open(tmpPath, 'wb') as f:
+                f.write(namesData)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmpPath, targetFilePath)
+        except BaseException:
+            try:
+                os.remove(tmpPath)
+            except OSError:
+                pass
+            raise
     except PermissionError:
         raise PermissionError("Can not write to {}, you try rerunning with higher privileges".format(targetFilePath))
 
-- 
2.43.0


From df2da3904528243f753cee0f8dbd1ae9af4da27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 38/98] fix: nameStringGender returned its GenderException
 instead of raising it

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 191c9e7..01e6d45 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -73,7 +73,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From 15aff003231ba81f2f18604406858446c5fb7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 39/98] fix: names are looked up in the gender data as utf-8,
 not in the encoding of the locale

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 01e6d45..d69af48 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -57,7 +57,7 @@ def getMapping(useUK = False):
     if not os.path.isfile(targetFilePath):
         downloadData(useUK)
     retDict = {}
-    with open(targetFilePath) as f:
+    with open(targetFilePath, 'r', encoding = 'utf-8') as f:
         reader = csv.DictReader(f, fieldnames = csvFields)
         next(reader)
         for line in reader:
-- 
2.43.0


From ed55eac1d7610a31b204fefaad6d891ffccd7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 40/98] fix: a ProQuest file with a record missing from its
 table of contents raised a KeyError

---
 metaknowledge/proquest/proQuestHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..6250845 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, KeyError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
-- 
2.43.0


From 27c2645ca0ca04b7ff78b80570d0107e72b2ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 41/98] fix: citations skipped in the command line were added
 to the default database, not the one selected

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..b7f1000 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -200,7 +200,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB = dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From 3f25e62f412a57674d0addec7534b61a8a4c4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 42/98] fix: the command line's list of citations had a random
 order and the encoding of the locale

---
 metaknowledge/bin/metaknowledgeCLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b7f1000..c9cbadd 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -177,8 +177,8 @@ def getWhatToDo(clargs, inRC):
         fName = getOutputName(clargs, '.csv')
         cites = set(cites)
         print("Writing {}".format(fName))
-        with open(fName, 'w') as f:
-            f.writelines(cites)
+        with open(fName, 'w', encoding = 'utf-8') as f:
+            f.writelines(sorted(cites))
         return False
     else:
         dbName = input("The default manual databse file is called {}, press Enter to use it or type the name of the database you wish to use:\n".format(metaknowledge.journalAbbreviations.manualDBname))
-- 
2.43.0


From 659b74780849c8e17e4d950afc5ecc7ed9579964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 43/98] fix: failing to read the journal abbreviations database
 emptied it

---
 metaknowledge/journalAbbreviations/backend.py | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 19cf025..535708e 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -102,10 +102,15 @@ def _editDB(dbLoc):
     """
     tmpLoc = '{}.{}.tmp'.format(dbLoc, os.getpid())
     try:
-        for ext in ('.dat', '.dir'):
-            if os.path.isfile(dbLoc + ext):
+        try:
+            for ext in ('.dir', '.dat'):
                 shutil.copyfile(dbLoc + ext, tmpLoc + ext)
-        with dbm.dumb.open(tmpLoc, flag = 'c') as db:
+        except FileNotFoundError:
+            flag = 'n'
+        else:
+            #The flag 'c' would replace an index it can not read with an empty one
+            flag = 'w'
+        with dbm.dumb.open(tmpLoc, flag = flag) as db:
             yield db
         for ext in ('.dat', '.dir'):
             with open(tmpLoc + ext, 'rb+') as f:
@@ -189,7 +194,11 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
     retDict = {}
     try:
         if returnDict == 'both' or returnDict == 'WOS':
-            with dbm.dumb.open(dbLoc + '/{}'.format(dbname)) as db:
+            try:
+                WOSdb = dbm.dumb.open(dbLoc + '/{}'.format(dbname), flag = 'r')
+            except FileNotFoundError:
+                WOSdb = contextlib.nullcontext({})
+            with WOSdb as db:
                 if len(db) == 0:
                     raise JournalDataBaseError("J9 Database empty or missing, to regenerate it import and run metaknowledge.WOS.journalAbbreviations.updatej9DB().")
                 for k, v in db.items():
@@ -199,8 +208,12 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
-            if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
-                with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
+            try:
+                manualdb = dbm.dumb.open(dbLoc + '/{}'.format(manualDB), flag = 'r')
+            except FileNotFoundError:
+                manualdb = None
+            if manualdb is not None:
+                with manualdb as db:
                     for k, v in db.items():
                         retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
             else:
-- 
2.43.0


From 1b61268f06f92afa1feae4179083a2c48346b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 44/98] fix: a damaged line of a Medline file raised an
 IndexError instead of being reported

---
 metaknowledge/medline/recordMedline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 3b0b7f6..fa36452 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -111,7 +111,7 @@ def medlineRecordParser(record):
         tmptag = line[:4].rstrip()
         #The last line of a file may not have a newline
         contents = line[6:].rstrip('\n')
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
-- 
2.43.0


From 10ff03f05bfb5f5a998dbfdb09b6b5329e2caa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 45/98] fix: one undecodable byte near its start made a WOS,
 ProQuest or Scopus file be skipped without an error

---
 metaknowledge/WOS/wosHandlers.py           | 3 ++-
 metaknowledge/proquest/proQuestHandlers.py | 3 ++-
 metaknowledge/scopus/scopusHandlers.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 6a3906f..d355095 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -23,7 +23,8 @@ def isWOSFile(infile, checkedLines = 3):
     > `True` if the file is a WOS file
     """
     try:
-        with open(infile, 'r', encoding='utf-8-sig') as openfile:
+        #The parser reports undecodable bytes, most of those met here are after the header
+        with open(infile, 'r', encoding='utf-8-sig', errors = 'replace') as openfile:
             f = enumerate(openfile, start = 0)
             for i in range(checkedLines):
                 if "VR 1.0" in f.__next__()[1]:
diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index 6250845..0a31dee 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -26,7 +26,8 @@ def isProQuestFile(infile, checkedLines = 2):
     > `True` if the file is a valid ProQuest file
     """
     try:
-        with open(infile, 'r', encoding='utf-8') as openfile:
+        #The parser reports undecodable bytes, most of those met here are after the header
+        with open(infile, 'r', encoding='utf-8', errors = 'replace') as openfile:
             f = enumerate(openfile, start = 0)
             for i in range(checkedLines):
                 #This seems like enough checking
diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..8ac7190 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -32,7 +32,8 @@ def isScopusFile(infile, checkedLines = 2, maxHeaderDiff = 3):
     > `True` if the file is a Scopus csv file
     """
     try:
-        with open(infile, 'r', encoding='utf-8') as openfile:
+        #The parser reports undecodable bytes, most of those met here are after the header
+        with open(infile, 'r', encoding='utf-8', errors = 'replace') as openfile:
             if openfile.read(1) != "\ufeff":
                 return False
             for i in range(checkedLines):
-- 
2.43.0


From 53a744f82deebed7178cb51b7f64c2e006474177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:11 +0000
Subject: [PATCH 46/98] fix: Scopus fields starting with a comma, a $ or a |
 broke the whole record if they had a comma

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index ca41cf7..1171b39 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -164,7 +164,7 @@ class ScopusRecord(ExtendedRecord):
             return ret
 
 firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+innerQuotingRegex = re.compile(r'("")*"([^"]|$)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
-- 
2.43.0


From a198190d734d5b13e744f2fa79e46784a2fecfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 47/98] fix: a Medline file that turned out empty when parsed
 raised StopIteration

---
 metaknowledge/medline/medlineHandlers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/medlineHandlers.py b/metaknowledge/medline/medlineHandlers.py
index db0ae95..2d872ef 100644
--- a/metaknowledge/medline/medlineHandlers.py
+++ b/metaknowledge/medline/medlineHandlers.py
@@ -59,7 +59,10 @@ def medlineParser(pubFile):
     try:
         with open(pubFile, 'r', encoding = 'latin-1') as openfile:
             f = enumerate(openfile, start = 1)
-            lineNum, line = next(f)
+            try:
+                lineNum, line = next(f)
+            except StopIteration:
+                return recSet, BadPubmedFile("The file '{}' is empty.".format(pubFile))
             try:
                 while True:
                     if line.startswith("PMID- "):
-- 
2.43.0


From 6af5daeffd89318845e71062c492c241fd83b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 48/98] fix: two Medline records not separated by an empty line
 became one without a word

---
 metaknowledge/medline/recordMedline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index fa36452..cb8ed8c 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -113,6 +113,8 @@ def medlineRecordParser(record):
         contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
+            if tag == 'PMID' and tag in tagDict:
+                raise BadPubmedRecord("A second record starts on line {} without an empty line before it: '{}'".format(lineNum, line))
             if tag == 'AU':
                 mostRecentAuthor = contents
             if tag in authorBasedTags:
-- 
2.43.0


From 640cd5c5d96501b061d910bda7f7914493e122ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 49/98] fix: a Scopus line with more columns than the header
 lost the surplus without a word

---
 metaknowledge/scopus/recordScopus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 1171b39..be567ab 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -223,4 +223,6 @@ def scopusRecordParser(record, header = None):
                 tagDict[key] = valString
         else:
             tagDict[key] = currentVal
+    if splitRecord:
+        raise BadScopusRecord("The record has more columns than the header, first: '{}'".format(','.join(splitRecord)[:100]))
     return tagDict
-- 
2.43.0


From 980c4e278dfbf995f7d034b780567920fb02500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 50/98] fix: an XML file declaring an unknown encoding broke
 loading its whole directory

---
 metaknowledge/grants/nsfGrant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index fcd1399..63b56b3 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -63,7 +63,7 @@ def isNSFfile(fileName, useFileName = True):
             return False
         else:
             return True
-    except (ET.ParseError, UnicodeError):
+    except (ET.ParseError, ValueError, LookupError):
         return False
 
 def parserNSFfile(fileName):
@@ -126,7 +126,7 @@ def parserNSFfile(fileName):
                         elmComps.append(subElement.text)
                 grantDict[xmlElement.tag].append('; '.join(elmComps))
         grantSet.add(NSFGrant(grantDict, fileName))
-    except (ET.ParseError, UnicodeError):
+    except (ET.ParseError, ValueError, LookupError):
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a NSF grant file.".format(fileName))
     return grantSet, error
-- 
2.43.0


From ef8588e3ef009aec420d85636c73516d6b22bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 51/98] fix: networks of citations by author, year or journal
 failed on a citation without one

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 754b8f1..9a8716b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1451,7 +1451,7 @@ class RecordCollection(CollectionWithIDs):
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
@@ -1777,7 +1777,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From 7a3b77626d8a8c6efc6a30e5ba7dedb28e7e37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 52/98] fix: unweighted citation networks of authors, years or
 journals crashed, and reversed ones had their edges the wrong way

---
 metaknowledge/recordCollection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9a8716b..0caf158 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1683,8 +1683,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1696,9 +1698,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From 10223af4ab3e6526e4a5499e40d28d573cc6cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 53/98] fix: co-authorship networks counted an author once more
 for each earlier author of the record, and co-authors shared one citation
 profile

---
 metaknowledge/recordCollection.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 0caf158..373eeaa 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1040,9 +1040,11 @@ class RecordCollection(CollectionWithIDs):
                     detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
                             grph.add_node(auth1, **detailedInfo.copy())
+                            if citeProfile:
+                                grph.nodes[auth1]['citeProfile'] = {}
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
@@ -1051,17 +1053,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 8815f378ee8ac328362cad05f44e7c2da7f0a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 54/98] fix: the authors of a ProQuest record were the letters
 of their name or of the word Author, and its year was a string

---
 .../proquest/tagProcessing/specialFunctions.py       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..f951026 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,6 +1,12 @@
+def proQuestYear(value):
+    try:
+        return int(value)
+    except ValueError:
+        return value
+
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
@@ -8,9 +14,9 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
-    'year' : lambda R : R['Degree date'],
+    'year' : lambda R : proQuestYear(R['Degree date']),
     #'j9' : '',
     #'journal' : '',
     'title' : lambda R : R['Title'],
-- 
2.43.0


From c748ea5a50455a938d12c46a200623657b8688f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 55/98] fix: a ProQuest abstract broke the search for
 copyrights and abstracts of Scopus and ProQuest records were missing from the
 table for language processing

---
 metaknowledge/recordCollection.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 373eeaa..8aa6c9f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -440,7 +440,7 @@ class RecordCollection(CollectionWithIDs):
         """
         retCopyrights = set()
         for R in self:
-            begin, abS = findCopyright(R.get('abstract', ''))
+            begin, abS = findCopyright(_abstractString(R))
             if abS != '':
                 retCopyrights.add(abS)
         return list(retCopyrights)
@@ -675,7 +675,7 @@ class RecordCollection(CollectionWithIDs):
             for R in self:
                 pcount += 1
                 PBar.updateVal(pcount/ pmax, "Analyzing: {}".format(R))
-                abstract, copyrightString = abPrep(R.get('AB', ''))
+                abstract, copyrightString = abPrep(_abstractString(R))
 
                 retDict['id'].append(R.id)
                 retDict['year'].append(R.get('year', ''))
@@ -1823,6 +1823,14 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                             G.add_edge(citeID2, e2, **data)
 
 
+def _abstractString(R):
+    """The abstract of _R_ as one string, ProQuest abstracts are lists of lines"""
+    abstract = R.get('abstract', '')
+    if isinstance(abstract, list):
+        return ' '.join(abstract)
+    else:
+        return abstract
+
 def findCopyright(inS):
     possibleHits = ['. &COPY; ', '. Crown Copyright',' Elsevier Ltd. ', '. Copyright', '. Published by Els', '. (c) ', '. (C) ']
     splitString = False
-- 
2.43.0


From debfd9451526d780b23fa646dda227172aacfb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 56/98] fix: citations unpickled in another process did not
 equal the same citations made there

---
 metaknowledge/citation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 02a6a31..5c63522 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -153,6 +153,12 @@ class Citation(collections.abc.Hashable):
         else:
             self = self._id
 
+    def __getstate__(self):
+        #The hash of a string is different in every process
+        state = self.__dict__.copy()
+        state.pop('_hash', None)
+        return state
+
     def __str__(self):
         """
         returns the original string
-- 
2.43.0


From 45a9d38d6576c55881d91e36a23e057360e04a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 57/98] fix: localCitesOf found nothing when given a citation
 string

---
 metaknowledge/recordCollection.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8aa6c9f..7838047 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1482,18 +1482,11 @@ class RecordCollection(CollectionWithIDs):
         if isinstance(rec, Record):
             recCite = rec.createCitation()
         elif isinstance(rec, str):
-            try:
-                recCite = self.getID(rec)
-            except ValueError:
-                try:
-                    recCite = Citation(rec)
-                except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+            idRec = self.getID(rec)
+            if idRec is None:
+                recCite = Citation(rec)
             else:
-                if recCite is None:
-                    return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-                else:
-                    recCite = recCite.createCitation()
+                recCite = idRec.createCitation()
         elif isinstance(rec, Citation):
             recCite = rec
         else:
-- 
2.43.0


From e3ba7f17ede218079baa80f233872173a19b893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 58/98] fix: rpys failed without any citation, with a cited
 year of 1000 or less or 2100 or more, and with one dropped year

---
 metaknowledge/recordCollection.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 7838047..f4ca5a9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -816,6 +816,8 @@ class RecordCollection(CollectionWithIDs):
 
         if dropYears is None:
             dropYears = set()
+        elif isinstance(dropYears, int):
+            dropYears = {dropYears}
         yearCounts = {}
         retDict = {'year' : [], 'count' : [], 'abs-deviation' : [], 'rank' : []}
 
@@ -843,14 +845,13 @@ class RecordCollection(CollectionWithIDs):
                 else:
                     yearCounts[cYear] = 1
 
+        if (minYear is None or maxYear is None) and len(yearCounts) == 0:
+            return retDict
+
         if minYear is None:
-            smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            minYear = max(min(yearCounts.keys()), 1000)
         if maxYear is None:
-            biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = min(max(yearCounts.keys()), 2100)
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From a45addf9a95a2bdb929b70f65d75d2cdf2817c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 59/98] fix: diffusionCount compared counts of other authors
 and other values than it was asked for, and failed on a source without
 authors

---
 metaknowledge/diffusion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index a02e164..1ec90ac 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -266,7 +266,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
@@ -291,7 +291,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -303,7 +303,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
@@ -323,7 +323,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From 80fb5f3c874774a2b96048d7a6a06a9505166b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 60/98] fix: diffusion graphs of Scopus records had no edges

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 1ec90ac..1b782a2 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -106,7 +106,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
                         workingGraph.nodes[val]["target"] = True
-                    targetCites = Rt.get('CR')
+                    targetCites = Rt.get('citations')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
                             for sVal in Rs:
-- 
2.43.0


From 974ee654a041bec02d51f5ca5b5003dd818e6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 61/98] fix: citations of a Scopus record by its later authors
 ran the author and the title together

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index be567ab..ae9cad4 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -142,7 +142,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0


From ebface13b73db5cf13a4c819d2ac6f99673b53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 62/98] fix: counts of a citation network depended on whether a
 record was met before or after its citations

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f4ca5a9..ec0cef7 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1628,6 +1628,8 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if hID not in grph:
             nodeName, nodeDat = makeNodeTuple(headNd, hID, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR)
             grph.add_node(nodeName, **nodeDat)
+        elif count:
+            grph.nodes[hID]['count'] += 1
     else:
         hID = None
     idList = []
-- 
2.43.0


From 1d0dc122e882d2fd4f8a310087a6f8393d73803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 63/98] fix: the type of a multi-mode network's nodes was
 repeated for each occurrence when they were not counted

---
 metaknowledge/mkCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 20388c9..febc6a5 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1328,9 +1328,7 @@ class CollectionWithIDs(Collection):
                                 else:
                                     grph.add_node(node1)
                             elif recordType:
-                                try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
-                                except KeyError:
+                                if 'type' not in grph.nodes[node1]:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
-- 
2.43.0


From 35e076c1bfa719b770d0d7324c1513cbecadd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 64/98] fix: rankedSeries in pandas mode ignored greatestFirst

---
 metaknowledge/mkCollection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index febc6a5..5ddad23 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -681,6 +681,9 @@ class CollectionWithIDs(Collection):
             if not greatestFirst:
                 retList.reverse()
             if pandasMode:
+                if not greatestFirst:
+                    for column in panDict.values():
+                        column.reverse()
                 return panDict
             else:
                 return retList
-- 
2.43.0


From 04246a884cbaa17eb75445939593caa989b0481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 65/98] fix: getCitations kept citations that miss the field
 asked for

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..ab3506c 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -578,7 +578,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for cite in self.get('citations', []):
                 try:
                     targetVal = getattr(cite, field)
-                    if values is None or targetVal in values:
+                    if targetVal is not None and (values is None or targetVal in values):
                         retCites.append(cite)
                 except AttributeError:
                     pass
-- 
2.43.0


From 1f7f1eb7b82f8b2c65871939b67cdc5f5d7c50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 66/98] fix: cooccurrenceCounts accepted having no tags to
 count

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 5ddad23..cc7c7a8 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -796,7 +796,7 @@ class CollectionWithIDs(Collection):
         if not isinstance(keyTag, str):
             raise TagError("'{}' is not a string it cannot be used as a tag.".format(keyTag))
         if len(countedTags) < 1:
-            TagError("You need to provide atleast one tag")
+            raise TagError("You need to provide atleast one tag")
         for tag in countedTags:
             if not isinstance(tag, str):
                 raise TagError("'{}' is not a string it cannot be used as a tag.".format(tag))
-- 
2.43.0


From eab455dc33ba989fe2cbd92a8ef439c79cce8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 67/98] fix: rankings, time series, burst and NLP tables were
 written in the encoding of the locale

---
 metaknowledge/mkCollection.py     | 4 ++--
 metaknowledge/recordCollection.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index cc7c7a8..ef86d80 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -650,7 +650,7 @@ class CollectionWithIDs(Collection):
                     seriesDict[entry] = 1
         seriesList = sorted(seriesDict.items(), key = lambda x: x[1], reverse = greatestFirst)
         if outputFile is not None:
-            with open(outputFile, 'w') as f:
+            with open(outputFile, 'w', encoding = 'utf-8', newline = '') as f:
                 writer = csv.writer(f, dialect = 'excel')
                 writer.writerow((str(tag), 'count'))
                 writer.writerows(seriesList)
@@ -758,7 +758,7 @@ class CollectionWithIDs(Collection):
             seriesList += [(e, y) for y in yd.keys()]
         seriesList = sorted(seriesList, key = lambda x: x[1], reverse = greatestFirst)
         if outputFile is not None:
-            with open(outputFile, 'w') as f:
+            with open(outputFile, 'w', encoding = 'utf-8', newline = '') as f:
                 writer = csv.writer(f, dialect = 'excel')
                 writer.writerow((str(tag), 'years'))
                 writer.writerows(((k,'|'.join((str(y) for y in v))) for k,v in seriesDict.items()))
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ec0cef7..a6ae52a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -557,7 +557,7 @@ class RecordCollection(CollectionWithIDs):
 
             if outputFile is not None:
                 PBar.updateVal(.99, "Writing to file: {}".format(outputFile))
-                with open(outputFile, 'w', newline = '') as f:
+                with open(outputFile, 'w', encoding = 'utf-8', newline = '') as f:
                     writer = csv.DictWriter(f, ['year', 'word'])
                     for row in range(len(retDict['year'])):
                         writer.writerow({k : retDict[k][row] for k in retDict.keys()})
@@ -694,7 +694,7 @@ class RecordCollection(CollectionWithIDs):
 
             if outputFile is not None:
                 PBar.updateVal(.99, "Writing to file: {}".format(outputFile))
-                with open(outputFile, 'w', newline = '') as f:
+                with open(outputFile, 'w', encoding = 'utf-8', newline = '') as f:
                     fieldNames = list(retDict.keys())
                     fieldNames.remove('id')
                     fieldNames.remove('title')
-- 
2.43.0


From cf59b2f4098476c9ba1f28ff5d4cee1738298101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 68/98] fix: citeFilter skipped the rest of a record's
 citations after one without the field

---
 metaknowledge/recordCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a6ae52a..1513c25 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1560,7 +1560,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1576,7 +1576,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1584,7 +1584,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1592,7 +1592,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From deee561e6efc00449637b49fce661e0ea6752b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 69/98] fix: diffusionCount's table had columns of different
 lengths when the extra value is a tag of the records

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 1b782a2..394fa65 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -281,7 +281,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t != extraValue]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
-- 
2.43.0


From 636d4065bd9d6203aff243c0ef69d75413b4cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 70/98] fix: diffusionAddCountsFromSource emptied the counts it
 was given

---
 metaknowledge/diffusion.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 394fa65..f13aa3b 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -404,14 +404,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         try:
             if not isinstance(countsDict.keys().__iter__().__next__(), str):
                 PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
-                countsDict = newCountsDict
+                countsDict = {str(k) : v for k, v in countsDict.items()}
         except StopIteration:
             pass
         count = 0
-- 
2.43.0


From 230c49620ececd4e251b246292dfaf48e3d314ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 71/98] fix: Citation.Extra failed for citations of Scopus
 records, which need not have all the parts

---
 metaknowledge/citation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 5c63522..a6bce4b 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -259,8 +259,8 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
-                retVal += getattr(self, tag) + ', '
+            if getattr(self, tag, None):
+                retVal += str(getattr(self, tag)) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
         else:
-- 
2.43.0


From c5c167ecb8dd90accde887f764c93cff8e937e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 72/98] fix: files of exports that failed were left open and
 written to later

---
 metaknowledge/graphHelpers.py     | 156 ++++++++++++++----------------
 metaknowledge/recordCollection.py | 121 +++++++++++------------
 2 files changed, 134 insertions(+), 143 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 0d77c0e..ac0bf47 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,32 +65,30 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)), encoding = 'utf-8', newline = '')
-            nFile = csv.DictReader(f)
-            for line in nFile:
+            with open(os.path.expanduser(os.path.abspath(nodeList)), encoding = 'utf-8', newline = '') as f:
+                nFile = csv.DictReader(f)
+                for line in nFile:
+                    vals = line
+                    ndID = vals[idKey]
+                    del vals[idKey]
+                    if len(vals) > 0:
+                        grph.add_node(ndID, **vals)
+                    else:
+                        grph.add_node(ndID)
+        PBar.updateVal(.25, "Reading " + edgeList)
+        with open(os.path.expanduser(os.path.abspath(edgeList)), encoding = 'utf-8', newline = '') as f:
+            eFile = csv.DictReader(f)
+            for line in eFile:
                 vals = line
-                ndID = vals[idKey]
-                del vals[idKey]
+                eFrom = vals[eSource]
+                eTo = vals[eDest]
+                del vals[eSource]
+                del vals[eDest]
                 if len(vals) > 0:
-                    grph.add_node(ndID, **vals)
+                    grph.add_edge(eFrom, eTo, **vals)
                 else:
-                    grph.add_node(ndID)
-            f.close()
-        PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)), encoding = 'utf-8', newline = '')
-        eFile = csv.DictReader(f)
-        for line in eFile:
-            vals = line
-            eFrom = vals[eSource]
-            eTo = vals[eDest]
-            del vals[eSource]
-            del vals[eDest]
-            if len(vals) > 0:
-                grph.add_edge(eFrom, eTo, **vals)
-            else:
-                grph.add_edge(eFrom, eTo)
-        PBar.finish("{} nodes and {} edges found".format(len(grph.nodes()), len(grph.edges())))
-        f.close()
+                    grph.add_edge(eFrom, eTo)
+            PBar.finish("{} nodes and {} edges found".format(len(grph.nodes()), len(grph.edges())))
         return grph
 
 def writeGraph(grph, name, edgeInfo = True, typing = False, suffix = 'csv', overwrite = True, allSameAttribute = False):
@@ -205,9 +203,8 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
     else:
         PBar = _ProgressBar(0, "Writing edge list {}".format(name), dummy = True)
     if len(grph.edges(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
-        outFile.write('"Source","Target"\n')
-        outFile.close()
+        with open(os.path.expanduser(os.path.abspath(name)), 'w') as outFile:
+            outFile.write('"Source","Target"\n')
         PBar.updateVal(1, "Done edge list '{}', 0 edges written.".format(name))
     else:
         if extraInfo:
@@ -229,39 +226,38 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
             csvHeader = ['Source'] +  ['Target']
         count = 0
         PBar.updateVal(.01, "Opening file {}".format(name))
-        f = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8', newline = '')
-        outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting=csv.QUOTE_NONNUMERIC)
-        outFile.writeheader()
-        if extraInfo:
-            for e in grph.edges(data = True):
-                count += 1
-                if count % 1000 == 0:
-                    PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict = e[2].copy()
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
-                try:
-                    outFile.writerow(eDict)
-                except UnicodeEncodeError:
-                    #Because Windows
-                    newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in eDict.items()}
-                    outFile.writerow(newDict)
-                except ValueError:
-                    raise ValueError("Some edges in The graph do not have the same attributes")
-        else:
-            for e in grph.edges():
-                count += 1
-                if count % 1000 == 0:
-                    PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict = {'Source' : e[0], 'Target' : e[1]}
-                try:
-                    outFile.writerow(eDict)
-                except UnicodeEncodeError:
-                    #Because Windows
-                    newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in eDict.items()}
-                    outFile.writerow(newDict)
-        PBar.updateVal(1, "Closing {}".format(name))
-        f.close()
+        with open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8', newline = '') as f:
+            outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting=csv.QUOTE_NONNUMERIC)
+            outFile.writeheader()
+            if extraInfo:
+                for e in grph.edges(data = True):
+                    count += 1
+                    if count % 1000 == 0:
+                        PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
+                    eDict = e[2].copy()
+                    eDict['Source'] = e[0]
+                    eDict['Target'] = e[1]
+                    try:
+                        outFile.writerow(eDict)
+                    except UnicodeEncodeError:
+                        #Because Windows
+                        newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in eDict.items()}
+                        outFile.writerow(newDict)
+                    except ValueError:
+                        raise ValueError("Some edges in The graph do not have the same attributes")
+            else:
+                for e in grph.edges():
+                    count += 1
+                    if count % 1000 == 0:
+                        PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
+                    eDict = {'Source' : e[0], 'Target' : e[1]}
+                    try:
+                        outFile.writerow(eDict)
+                    except UnicodeEncodeError:
+                        #Because Windows
+                        newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in eDict.items()}
+                        outFile.writerow(newDict)
+            PBar.updateVal(1, "Closing {}".format(name))
         if not isinstance(_progBar, _ProgressBar):
             PBar.finish("Done edge list {}, {} edges written.".format(name, count))
 
@@ -297,9 +293,8 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         PBar = _ProgressBar(0, "Writing node list {}".format(name), dummy = True)
     if len(grph.nodes(data = True)) < 1:
-        outFile = open(os.path.expanduser(os.path.abspath(name)), 'w')
-        outFile.write('ID\n')
-        outFile.close()
+        with open(os.path.expanduser(os.path.abspath(name)), 'w') as outFile:
+            outFile.write('ID\n')
         PBar.updateVal(1, "Done node attribute list: {}, 0 nodes written.".format(name))
     else:
         csvHeader = []
@@ -318,25 +313,24 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             csvHeader = ['ID'] + list(extraAttribs)
         count = 0
         PBar.updateVal(.10, "Opening '{}'".format(name))
-        f = open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8', newline = '')
-        outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
-        outFile.writeheader()
-        for n in grph.nodes(data = True):
-            count += 1
-            if count % 100 == 0:
-                PBar.updateVal(count / nMax * .90 + .10, "Writing node: '{}'".format(n[0]))
-            nDict = n[1].copy()
-            nDict['ID'] = n[0]
-            try:
-                outFile.writerow(nDict)
-            except UnicodeEncodeError:
-                #Because Windows
-                newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in nDict.items()}
-                outFile.writerow(newDict)
-            except ValueError:
-                raise ValueError("Some nodes in the graph do not have the same attributes")
-        PBar.updateVal(1, "Closing {}".format(name))
-        f.close()
+        with open(os.path.expanduser(os.path.abspath(name)), 'w', encoding = 'utf-8', newline = '') as f:
+            outFile = csv.DictWriter(f, csvHeader, delimiter = ',', quotechar = '"', quoting = csv.QUOTE_NONNUMERIC)
+            outFile.writeheader()
+            for n in grph.nodes(data = True):
+                count += 1
+                if count % 100 == 0:
+                    PBar.updateVal(count / nMax * .90 + .10, "Writing node: '{}'".format(n[0]))
+                nDict = n[1].copy()
+                nDict['ID'] = n[0]
+                try:
+                    outFile.writerow(nDict)
+                except UnicodeEncodeError:
+                    #Because Windows
+                    newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in nDict.items()}
+                    outFile.writerow(newDict)
+                except ValueError:
+                    raise ValueError("Some nodes in the graph do not have the same attributes")
+            PBar.updateVal(1, "Closing {}".format(name))
         if not isinstance(_progBar, _ProgressBar):
             PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
 
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 1513c25..2372363 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1,6 +1,7 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
 import os
 import os.path
+import contextlib
 import csv
 import re
 try:
@@ -333,54 +334,51 @@ class RecordCollection(CollectionWithIDs):
             csvWriterFields = list(retrievedFields)
         if genderCounts:
             csvWriterFields += ['num-Male', 'num-Female', 'num-Unknown']
-        if splitByTag is None:
-            f = open(baseFileName, mode = 'w', encoding = 'utf-8', newline = '')
-            csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
-            csvWriter.writeheader()
-        else:
-            filesDict = {}
-        for R in self:
-            if splitByTag:
-                try:
-                    splitVal = R[splitByTag]
-                except KeyError:
-                    continue
-                else:
-                    if not isinstance(splitVal, list):
-                        splitVal = [str(splitVal)]
-            recDict = {}
-            for t in retrievedFields:
-                value = R.get(t)
-                if isinstance(value, str):
-                    recDict[t] = value
-                elif hasattr(value, '__iter__'):
-                    recDict[t] = listDelimiter.join([str(v) for v in value])
-                elif value is None:
-                    recDict[t] = ''
-                else:
-                    recDict[t] = str(value)
-            if numAuthors:
-                recDict["num-Authors"] = len(R.get('authorsShort', []))
-            if genderCounts:
-                recDict['num-Male'], recDict['num-Female'], recDict['num-Unknown'] = R.authGenders(_countsTuple = True)
-            if splitByTag:
-                for sTag in splitVal:
-                    if sTag in filesDict:
-                        filesDict[sTag][1].writerow(recDict)
-                    else:
-                        fname = "{}-{}".format(sTag[:200], baseFileName)
-                        f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
-                        csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
-                        csvWriter.writeheader()
-                        csvWriter.writerow(recDict)
-                        filesDict[sTag] = (f, csvWriter)
+        #The files are closed even if something goes wrong, nothing is to be written to them afterwards
+        with contextlib.ExitStack() as openFiles:
+            if splitByTag is None:
+                f = openFiles.enter_context(open(baseFileName, mode = 'w', encoding = 'utf-8', newline = ''))
+                csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
+                csvWriter.writeheader()
             else:
-                csvWriter.writerow(recDict)
-        if splitByTag:
-            for f, c in filesDict.values():
-                f.close()
-        else:
-            f.close()
+                filesDict = {}
+            for R in self:
+                if splitByTag:
+                    try:
+                        splitVal = R[splitByTag]
+                    except KeyError:
+                        continue
+                    else:
+                        if not isinstance(splitVal, list):
+                            splitVal = [str(splitVal)]
+                recDict = {}
+                for t in retrievedFields:
+                    value = R.get(t)
+                    if isinstance(value, str):
+                        recDict[t] = value
+                    elif hasattr(value, '__iter__'):
+                        recDict[t] = listDelimiter.join([str(v) for v in value])
+                    elif value is None:
+                        recDict[t] = ''
+                    else:
+                        recDict[t] = str(value)
+                if numAuthors:
+                    recDict["num-Authors"] = len(R.get('authorsShort', []))
+                if genderCounts:
+                    recDict['num-Male'], recDict['num-Female'], recDict['num-Unknown'] = R.authGenders(_countsTuple = True)
+                if splitByTag:
+                    for sTag in splitVal:
+                        if sTag in filesDict:
+                            filesDict[sTag][1].writerow(recDict)
+                        else:
+                            fname = "{}-{}".format(sTag[:200], baseFileName)
+                            f = openFiles.enter_context(open(fname, mode = 'w', encoding = 'utf-8', newline = ''))
+                            csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
+                            csvWriter.writeheader()
+                            csvWriter.writerow(recDict)
+                            filesDict[sTag] = (f, csvWriter)
+                else:
+                    csvWriter.writerow(recDict)
 
     def writeBib(self, fname = None, maxStringLength = 1000, wosMode = False, reducedOutput = False, niceIDs = True):
         """Writes a bibTex entry to _fname_ for each `Record` in the collection.
@@ -413,21 +411,20 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `True`, if `True` the IDs used will be derived from the authors, publishing date and title, if `False` it will be the UT tag
         """
-        if fname:
-            f = open(fname, mode = 'w', encoding = 'utf-8')
-        else:
-            f = open(self.name[:200] + '.bib', mode = 'w', encoding = 'utf-8')
-        f.write("%This file was generated by the metaknowledge Python package.\n%The contents have been automatically generated and are likely to not work with\n%LaTeX without some human intervention. This file is meant for other automatic\n%systems and not to be used directly for making citations\n")
-        #I figure this is worth mentioning, as someone will get annoyed at none of the special characters being escaped and how terrible some of the fields look to humans
-        for R in self:
-            try:
-                f.write('\n\n')
-                f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
-                pass
-            except AttributeError:
-                raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-        f.close()
+        if not fname:
+            fname = self.name[:200] + '.bib'
+        #The file is closed even if something goes wrong, nothing is to be written to it afterwards
+        with open(fname, mode = 'w', encoding = 'utf-8') as f:
+            f.write("%This file was generated by the metaknowledge Python package.\n%The contents have been automatically generated and are likely to not work with\n%LaTeX without some human intervention. This file is meant for other automatic\n%systems and not to be used directly for making citations\n")
+            #I figure this is worth mentioning, as someone will get annoyed at none of the special characters being escaped and how terrible some of the fields look to humans
+            for R in self:
+                try:
+                    f.write('\n\n')
+                    f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
+                except BadWOSRecord:
+                    pass
+                except AttributeError:
+                    raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
 
     def findProbableCopyright(self):
         """Finds the (likely) copyright string from all abstracts in the `RecordCollection`
-- 
2.43.0


From eb41f83cb7205bce9bff87ea5f0fd966f2ac5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 73/98] fix: the progress displays of three functions were not
 stopped by errors

---
 metaknowledge/diffusion.py    | 20 ++++++++-----------
 metaknowledge/graphHelpers.py | 36 ++++++++++++++++-------------------
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index f13aa3b..a6b6769 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -187,16 +187,14 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
         raise RuntimeError("{} is not a valid extraValue, only tags are allowed".format(extraValue))
     if extraMapping is None:
         extraMapping = lambda x : x
-    if metaknowledge.VERBOSE_MODE or _ProgBar:
-        if _ProgBar:
-            PBar = _ProgBar
-            PBar.updateVal(0, "Starting to analyse a diffusion network")
-        else:
-            PBar = _ProgressBar(0, "Starting to analyse a diffusion network")
-        count = 0
-        maxCount = len(source)
-    else:
-        PBar = _ProgressBar("Starting to analyse a diffusion network", dummy = True)
+    if not isinstance(_ProgBar, _ProgressBar):
+        #The with makes sure the display is stopped, even if something goes wrong
+        with _ProgressBar(0, "Starting to analyse a diffusion network", dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            counts = diffusionCount(source, target, sourceType = sourceType, extraValue = extraValue, pandasFriendly = pandasFriendly, compareCounts = compareCounts, numAuthors = numAuthors, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
+            PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
+        return counts
+    PBar = _ProgBar
+    PBar.updateVal(0, "Starting to analyse a diffusion network")
     count = 0
     maxCount = len(source)
     sourceDict = {}
@@ -267,8 +265,6 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
         localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
-    if PBar and not _ProgBar:
-        PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
         retDict = {targetCountString : []}
         if numAuthors:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index ac0bf47..fd5edbc 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -194,14 +194,14 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
     """
     count = 0
     eMax = len(grph.edges())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing edge list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing edge list {}".format(name))
-    else:
-        PBar = _ProgressBar(0, "Writing edge list {}".format(name), dummy = True)
+    if not isinstance(_progBar, _ProgressBar):
+        #The with makes sure the display is stopped, even if something goes wrong
+        with _ProgressBar(0, "Writing edge list {}".format(name), dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            writeEdgeList(grph, name, extraInfo = extraInfo, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done edge list {}, {} edges written.".format(name, eMax))
+        return
+    PBar = _progBar
+    PBar.updateVal(0, "Writing edge list {}".format(name))
     if len(grph.edges(data = True)) < 1:
         with open(os.path.expanduser(os.path.abspath(name)), 'w') as outFile:
             outFile.write('"Source","Target"\n')
@@ -258,8 +258,6 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                         newDict = {k.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(k, str) else k: v.encode('ASCII', errors='ignore').decode('ASCII', errors='ignore') if isinstance(v, str) else v for k, v in eDict.items()}
                         outFile.writerow(newDict)
             PBar.updateVal(1, "Closing {}".format(name))
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done edge list {}, {} edges written.".format(name, count))
 
 def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None):
     """Writes a node attribute list of _grph_ to the file given by the path _name_.
@@ -284,14 +282,14 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     """
     count = 0
     nMax = len(grph.nodes())
-    if metaknowledge.VERBOSE_MODE or isinstance(_progBar, _ProgressBar):
-        if isinstance(_progBar, _ProgressBar):
-            PBar = _progBar
-            PBar.updateVal(0, "Writing node list {}".format(name))
-        else:
-            PBar = _ProgressBar(0, "Writing node list {}".format(name))
-    else:
-        PBar = _ProgressBar(0, "Writing node list {}".format(name), dummy = True)
+    if not isinstance(_progBar, _ProgressBar):
+        #The with makes sure the display is stopped, even if something goes wrong
+        with _ProgressBar(0, "Writing node list {}".format(name), dummy = not metaknowledge.VERBOSE_MODE) as PBar:
+            writeNodeAttributeFile(grph, name, allSameAttribute = allSameAttribute, _progBar = PBar)
+            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, nMax))
+        return
+    PBar = _progBar
+    PBar.updateVal(0, "Writing node list {}".format(name))
     if len(grph.nodes(data = True)) < 1:
         with open(os.path.expanduser(os.path.abspath(name)), 'w') as outFile:
             outFile.write('ID\n')
@@ -331,8 +329,6 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
                 except ValueError:
                     raise ValueError("Some nodes in the graph do not have the same attributes")
             PBar.updateVal(1, "Closing {}".format(name))
-        if not isinstance(_progBar, _ProgressBar):
-            PBar.finish("Done node attribute list: {}, {} nodes written.".format(name, count))
 
 def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = None, timeString = None, nodeIndexString = 'tnet-ID', weightString = 'weight'):
     """Writes an edge list designed for reading by the _R_ package [tnet](https://toreopsahl.com/tnet/).
-- 
2.43.0


From 03477d7a819e3613b5ec1f0dc4ffaedd8e65541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 74/98] fix: making a citation network swallowed Ctrl-C

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2372363..95e0f0d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1636,7 +1636,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if nodeType == 'full' or nodeType == 'original':
             try:
                 nYear = getattr(n, "year")
-            except:
+            except Exception:
                 nYear = None
             yearList.append(nYear)
 
@@ -1655,7 +1655,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                 nYear = yearList[i]
                 try:
                     yearDiff = abs(hYear - nYear)
-                except:
+                except Exception:
                     yearDiff = None
 
                 if weighted:
-- 
2.43.0


From ebd30274070ad0874e1740864cc02d46af5e8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 75/98] fix: words of a dropList occurring twice in a row were
 only dropped once

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 95e0f0d..5d1900c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -503,7 +503,7 @@ class RecordCollection(CollectionWithIDs):
             if dropList is not None:
                 inString = " {} ".format(inString)
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in inString:
+                    while dropS in inString:
                         inString = inString.replace(dropS, ' ')
                 inString = inString[1:-1]
             if removeWhitespace:
@@ -626,7 +626,7 @@ class RecordCollection(CollectionWithIDs):
                 #incase a drop string is on the edge
                 abst = " {} ".format(abst.replace('\n', ' '))
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in abst:
+                    while dropS in abst:
                         abst = abst.replace(dropS, ' ')
                 abst = abst[1:-1]
             if removeWhitespace:
-- 
2.43.0


From 7b30d72b9363d0e81c0256549bd3acec05289320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 76/98] fix: writeCSV split by long values overwrote the files
 of others

---
 metaknowledge/recordCollection.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5d1900c..bceec1f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -367,16 +367,15 @@ class RecordCollection(CollectionWithIDs):
                 if genderCounts:
                     recDict['num-Male'], recDict['num-Female'], recDict['num-Unknown'] = R.authGenders(_countsTuple = True)
                 if splitByTag:
-                    for sTag in splitVal:
-                        if sTag in filesDict:
-                            filesDict[sTag][1].writerow(recDict)
+                    for fname in ("{}-{}".format(sTag[:200], baseFileName) for sTag in splitVal):
+                        if fname in filesDict:
+                            filesDict[fname][1].writerow(recDict)
                         else:
-                            fname = "{}-{}".format(sTag[:200], baseFileName)
                             f = openFiles.enter_context(open(fname, mode = 'w', encoding = 'utf-8', newline = ''))
                             csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                             csvWriter.writeheader()
                             csvWriter.writerow(recDict)
-                            filesDict[sTag] = (f, csvWriter)
+                            filesDict[fname] = (f, csvWriter)
                 else:
                     csvWriter.writerow(recDict)
 
-- 
2.43.0


From ece8bf70c773df0de7151915d9576e532a00ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 77/98] fix: mergeGraphs gave the added graph precedence where
 counts or weights were missing

---
 metaknowledge/graphHelpers.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index fd5edbc..6dea212 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -702,23 +702,17 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     """
 
     for addedNode, attribs in addedGraph.nodes(data = True):
-        if incrementedNodeVal:
-            try:
-                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
-            except KeyError:
-                targetGraph.add_node(addedNode, **attribs)
-        else:
-            if not targetGraph.has_node(addedNode):
-                targetGraph.add_node(addedNode, **attribs)
+        if not targetGraph.has_node(addedNode):
+            targetGraph.add_node(addedNode, **attribs)
+        elif incrementedNodeVal and incrementedNodeVal in attribs:
+            targetAttribs = targetGraph.nodes[addedNode]
+            targetAttribs[incrementedNodeVal] = targetAttribs.get(incrementedNodeVal, 0) + attribs[incrementedNodeVal]
     for edgeNode1, edgeNode2, attribs in addedGraph.edges(data = True):
-        if incrementedEdgeVal:
-            try:
-                targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
-            except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
-        else:
-            if not targetGraph.has_edge(edgeNode1, edgeNode2):
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+        if not targetGraph.has_edge(edgeNode1, edgeNode2):
+            targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+        elif incrementedEdgeVal and incrementedEdgeVal in attribs:
+            targetAttribs = targetGraph.edges[edgeNode1, edgeNode2]
+            targetAttribs[incrementedEdgeVal] = targetAttribs.get(incrementedEdgeVal, 0) + attribs[incrementedEdgeVal]
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
     """Returns a string or list containing statistics about the graph _G_.
-- 
2.43.0


From a852244fd312b9444a3e7330c301918ac4e62a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 78/98] fix: dropNodesByDegree ignored the incoming edges of
 directed graphs

---
 metaknowledge/graphHelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 6dea212..5cd9274 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -597,8 +597,11 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                 if count % 10000 == 0:
                     PBar.updateVal(count/ total, str(count) + " nodes analysed and " + str(len(badNodes)) + " nodes dropped")
             val = 0
+            nodeEdges = list(grph.edges(n, data = True))
+            if grph.is_directed():
+                nodeEdges += [e for e in grph.in_edges(n, data = True) if e[0] != n]
             if useWeight:
-                for e in grph.edges(n, data = True):
+                for e in nodeEdges:
                     try:
                         val += e[2][parameterName]
                     except KeyError:
@@ -607,7 +610,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                         else:
                             val += 1
             else:
-                val = len(grph.edges(n))
+                val = len(nodeEdges)
             if val < minDegree or val > maxDegree:
                 badNodes.append(n)
         if PBar:
-- 
2.43.0


From 176bc6756c1a08f003bac6536043497533cc908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 79/98] fix: a progress display that cannot be shown in full
 must not fail

The display writes titles and file names to the terminal. When the
terminal's encoding has no such character the thread drawing the display
died, and when the final message had one finish() raised and the result
of the operation was lost. Show a replacement instead.
---
 metaknowledge/progressBar.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/progressBar.py b/metaknowledge/progressBar.py
index cc0a8d7..764ab6a 100644
--- a/metaknowledge/progressBar.py
+++ b/metaknowledge/progressBar.py
@@ -71,12 +71,20 @@ class _ProgressBar(object):
                 self.out.write('\r')
             if len(self.inputString) < self.barMaxLength + self.difTermAndBar - self.timeLength:
                 tString = self.prepTime(time.time() - self.sTime, self.barMaxLength + self.difTermAndBar - len(self.inputString) - 1)
-                self.out.write(self.inputString + ' ' + tString)
+                self.show(self.inputString + ' ' + tString)
             else:
-                self.out.write(self.prepString(self.inputString, self.barMaxLength + self.difTermAndBar - self.timeLength) + self.prepTime(time.time() - self.sTime, self.timeLength))
+                self.show(self.prepString(self.inputString, self.barMaxLength + self.difTermAndBar - self.timeLength) + self.prepTime(time.time() - self.sTime, self.timeLength))
             self.out.write('\n')
             self.out.flush()
 
+    def show(self, s):
+        try:
+            self.out.write(s)
+        except UnicodeEncodeError:
+            #The terminal can not show all of the text
+            enc = self.out.encoding
+            self.out.write(s.encode(enc, 'replace').decode(enc))
+
     def jumpUp(self):
         self.out.write('\033[F')
         self.out.flush()
@@ -122,13 +130,13 @@ class _ProgressBar(object):
                 self.dString = self.prepString(self.inputString, self.barMaxLength + self.difTermAndBar - self.timeLength) + self.prepTime(time.time() - self.sTime, self.timeLength)
                 if barLength >= self.barMaxLength:
                     self.out.write('[' + '=' * barLength + ']' + percentString)
-                    self.out.write('\n' + self.dString + '\033[F')
+                    self.show('\n' + self.dString + '\033[F')
                 else:
                     self.out.write('[' + '=' * barLength + '>' + ' ' * (self.barMaxLength - barLength - 1) + ']' + percentString)
-                    self.out.write('\n' + self.dString + '\033[')
+                    self.show('\n' + self.dString + '\033[')
             elif self.inputString:
                 self.dString = self.prepString(self.inputString, self.barMaxLength + self.difTermAndBar - self.timeLength - self.percLength - 2) + '[' + self.prepTime(time.time() - self.sTime, self.timeLength) +  ']' + percentString
-                self.out.write(self.dString)
+                self.show(self.dString)
             else:
                 if barLength >= self.barMaxLength:
                     self.out.write('[' + '=' * barLength + ']' + percentString + '\r')
-- 
2.43.0


From db16ab6c2b7315aea9b3f6f05a35f7b4e459b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 80/98] fix: journal lookups ignored the database they were
 asked for

The table of abbreviations was read once per session, so isJournal() kept
using the first databases it was given whatever its parameters said, and
journals added to, excluded from or downloaded into a database with the
functions of journalAbbreviations were not found until the next session.
Citation.addToDB() put its journal in that table even when it was added to
another database. Keep one table per set of databases and read them again
after a database was edited.
---
 metaknowledge/citation.py                     | 33 ++++++++++---------
 metaknowledge/journalAbbreviations/backend.py |  5 +++
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index a6bce4b..b63dc50 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -8,12 +8,24 @@ except ImportError:
 import re
 
 from .mkExceptions import BadCitation
-from .journalAbbreviations import getj9dict, abrevDBname, manualDBname, addToDB
+from .journalAbbreviations import backend, getj9dict, abrevDBname, manualDBname, addToDB
 
 import metaknowledge
 
 #For journalAbbreviations, to reduce the number of times we read the dict
-abbrevDict = None
+#The tables of journals, one per set of databases
+abbrevDict = {}
+abbrevEdits = 0
+
+def _getAbbrevs(dbname = abrevDBname, manualDB = manualDBname, returnDict = 'both'):
+    global abbrevEdits
+    if abbrevEdits != backend.numEdits:
+        abbrevDict.clear()
+        abbrevEdits = backend.numEdits
+    key = (dbname, manualDB, returnDict)
+    if key not in abbrevDict:
+        abbrevDict[key] = getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    return abbrevDict[key]
 
 class Citation(collections.abc.Hashable):
     """A class to hold citation strings and allow for comparison between them.
@@ -293,14 +305,12 @@ class Citation(collections.abc.Hashable):
 
         > `True` if the `Citation` is for a journal
         """
-        global abbrevDict
-        if abbrevDict is None:
-            abbrevDict = getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+        abbrevs = _getAbbrevs(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
         if not hasattr(self, 'journal'):
             return False
         elif checkIfExcluded and self.journal:
             try:
-                if abbrevDict.get(self.journal, [True])[0]:
+                if abbrevs.get(self.journal, [True])[0]:
                     return False
                 else:
                     return True
@@ -308,7 +318,7 @@ class Citation(collections.abc.Hashable):
                 return False
         else:
             if self.journal:
-                dictVal = abbrevDict.get(self.journal, [b''])[0]
+                dictVal = abbrevs.get(self.journal, [b''])[0]
                 if dictVal:
                     return dictVal
                 else:
@@ -327,11 +337,8 @@ class Citation(collections.abc.Hashable):
 
         > The first full name given for the journal of the Citation (or the first name in the WOS list if multiple names exist), if there is not one then `None` is returned
         """
-        global abbrevDict
-        if abbrevDict is None:
-            abbrevDict = getj9dict()
         if self.isJournal():
-            return abbrevDict[self.journal][0]
+            return _getAbbrevs()[self.journal][0]
         else:
             return None
 
@@ -364,10 +371,6 @@ class Citation(collections.abc.Hashable):
             addToDB(abbr = d, dbname = manualDB)
         except KeyError:
             raise KeyError("This citation does not have a journal field.")
-        else:
-            #None means it has not been read yet, it will contain the new value once it is
-            if abbrevDict is not None:
-                abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 535708e..ea2a622 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -14,6 +14,9 @@ abrevDBname = "j9Abbreviations"
 
 manualDBname = "manualj9Abbreviations"
 
+#How often this process edited a database, tables read before the last time are out of date
+numEdits = 0
+
 def j9urlGenerator(nameDict = False):
     """How to get all the urls for the WOS Journal Title Abbreviations. Each is varies by only a few characters. These are the currently in use urls they may change.
 
@@ -100,6 +103,7 @@ def _editDB(dbLoc):
 
     For Backend
     """
+    global numEdits
     tmpLoc = '{}.{}.tmp'.format(dbLoc, os.getpid())
     try:
         try:
@@ -118,6 +122,7 @@ def _editDB(dbLoc):
         for ext in ('.dat', '.dir'):
             os.replace(tmpLoc + ext, dbLoc + ext)
     finally:
+        numEdits += 1
         for ext in ('.dat', '.dir', '.bak'):
             try:
                 os.remove(tmpLoc + ext)
-- 
2.43.0


From e961b1c06785128e097dcd0a64d065caa513fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 81/98] fix: what an interrupted edit left behind could become
 part of a database

A new database was started over the leftovers of an edit that crashed in a
process with the same number when these could not be removed, dbm.dumb
ignores that.
---
 metaknowledge/journalAbbreviations/backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index ea2a622..ee5c36e 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -111,6 +111,12 @@ def _editDB(dbLoc):
                 shutil.copyfile(dbLoc + ext, tmpLoc + ext)
         except FileNotFoundError:
             flag = 'n'
+            #dbm would ignore it when these are left from an edit that crashed and can not be removed
+            for ext in ('.dir', '.dat'):
+                try:
+                    os.remove(tmpLoc + ext)
+                except FileNotFoundError:
+                    pass
         else:
             #The flag 'c' would replace an index it can not read with an empty one
             flag = 'w'
-- 
2.43.0


From c0d9b9bfd94b87902d0531c26a1ad2a0a458c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 82/98] fix: gender counts left out authors with the same name
 and failed without authors

The counts were taken from a dict of the names, so two authors of a record
with one name were counted once and the counts did not add up to the
number of authors. The fractions of a record or collection without any
names raised a ZeroDivisionError.
---
 metaknowledge/mkRecord.py         | 6 ++++--
 metaknowledge/recordCollection.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index ab3506c..7e7ff6a 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -679,12 +679,14 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
 
         authDict = recordGenders(self)
         if _countsTuple or countsOnly or fractionsMode:
-            rawList = list(authDict.values())
+            #authors can share a name
+            rawList = [authDict[auth] for auth in self.get('authorsFull', [])]
             countsList = []
             for k in ('Male','Female','Unknown'):
                 countsList.append(rawList.count(k))
             if fractionsMode:
-                tot = sum(countsList)
+                #Without any names all the fractions are 0
+                tot = sum(countsList) or 1
                 for i in range(3):
                     countsList.append(countsList.pop(0) / tot)
             if _countsTuple:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index bceec1f..fef773e 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -904,7 +904,8 @@ class RecordCollection(CollectionWithIDs):
             femaleCount += f
             unknownCount += u
         if asFractions:
-            tot = maleCount + femaleCount + unknownCount
+            #Without any names all the fractions are 0
+            tot = (maleCount + femaleCount + unknownCount) or 1
             return {'Male' : maleCount / tot, 'Female' : femaleCount / tot, 'Unknown' : unknownCount / tot}
         return {'Male' : maleCount, 'Female' : femaleCount, 'Unknown' : unknownCount}
 
-- 
2.43.0


From 061c51df3a4c67c21eb21060ccca2909bc60898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 83/98] fix: leaving the python console ended the command line
 session

After the console opened with i the menu returned nothing and the session
ended with a TypeError instead of asking again.
---
 metaknowledge/bin/metaknowledgeCLI.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index c9cbadd..f289082 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -62,6 +62,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
             else:
                 bannerMsg += '.'
         code.interact(local = globals(), banner = bannerMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
         return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
-- 
2.43.0


From b8d082e6353ed548e0dc6024ea4d13dd745e203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:12 +0000
Subject: [PATCH 84/98] fix: the command line asked to overwrite without saying
 what

---
 metaknowledge/bin/metaknowledgeCLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index f289082..e104dee 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -307,12 +307,12 @@ def  outputNetwork(clargs, grph):
             try:
                 outName = getOutputName(clargs, '', checking = False)
                 metaknowledge.writeGraph(grph, outName, overwrite = False)
-            except OSError:
+            except OSError as e:
                 if clargs.name:
                     metaknowledge.writeGraph(grph, outName, overwrite = True)
                     break
                 else:
-                    overWrite = yesorNo("{}, overwrite (y/n)? ")
+                    overWrite = yesorNo("{}, overwrite (y/n)? ".format(e))
                     if overWrite:
                         metaknowledge.writeGraph(grph, outName, overwrite = True)
                         break
-- 
2.43.0


From 92f96be371f56180eed6ce291c1ba65802f71093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:07 +0000
Subject: [PATCH 85/98] fix: the command line failed on a citation without a
 journal

The session that goes over citations asked about the journal None and
ended with an error as soon as it was answered.
---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index e104dee..076a067 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -189,7 +189,7 @@ def getWhatToDo(clargs, inRC):
         try:
             for R in inRC:
                 for c in R.get('citations', []):
-                    if not hasattr(c, 'journal'):
+                    if getattr(c, 'journal', None) is None:
                         print("{} does not have a journal field".format(c))
                     elif c.isJournal(manualDB= dbName, returnDict ='both'):
                         print("the journal field of {} is in the database".format(c.journal))
-- 
2.43.0


From 145a77a818edcd7bbb5bd1c7519cdd1d84d18092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 86/98] fix: a file of another kind with VR 1.0 in its first
 lines was taken for a WOS file

---
 metaknowledge/WOS/wosHandlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index d355095..eacd87d 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -27,7 +27,8 @@ def isWOSFile(infile, checkedLines = 3):
         with open(infile, 'r', encoding='utf-8-sig', errors = 'replace') as openfile:
             f = enumerate(openfile, start = 0)
             for i in range(checkedLines):
-                if "VR 1.0" in f.__next__()[1]:
+                #Other files can have it somewhere in their text
+                if f.__next__()[1].startswith("VR 1.0"):
                     return True
     except (StopIteration, UnicodeDecodeError):
         return False
-- 
2.43.0


From 2a64b0e4271b12349ad8f3a359b023f634f99c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 87/98] fix: an entry that is in a ProQuest record more than
 once kept only its last value

---
 metaknowledge/proquest/recordProQuest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..fd1d7b9 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -100,7 +100,10 @@ def proQuestRecordParser(enRecordFile, recNum):
         elif ':' in line and not line.startswith('http://'):
             splitLine = line.split(': ')
             currentEntry = splitLine[0]
-            tagDict[currentEntry] = [': '.join(splitLine[1:]).rstrip()]
+            if currentEntry == 'ProQuest document ID' and currentEntry in tagDict:
+                raise BadProQuestRecord("A second record starts before line {} without a separator before it: '{}'".format(lineNum, line))
+            #Other entries can be in a record more than once
+            tagDict.setdefault(currentEntry, []).append(': '.join(splitLine[1:]).rstrip())
             if currentEntry == 'Author':
                 currentEntry = 'url'
         else:
-- 
2.43.0


From aec19337258c8463dc73f5684cfcf7e5b6441c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 88/98] fix: dropEdges dropped the wrong ones of several edges
 between the same nodes

---
 metaknowledge/graphHelpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 5cd9274..0ee9b4e 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -531,9 +531,10 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            #The edges of multigraphs need their keys to be told apart
+            for e in (grph.edges(data = True, keys = True) if grph.is_multigraph() else grph.edges(data = True)):
                 try:
-                    val = e[2][parameterName]
+                    val = e[-1][parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -545,7 +546,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(e[:-1])
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From 574c59c13123561abf48071d83f5bd98bb32a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 89/98] fix: repeated elements of an NSF grant replaced each
 other or broke the whole load

---
 metaknowledge/grants/nsfGrant.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 63b56b3..3450032 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -116,10 +116,19 @@ def parserNSFfile(fileName):
             if xmlElement.tag == 'Organization' or xmlElement.tag == 'Investigator':
                 continue
             elif len(xmlElement) < 1:
-                grantDict[xmlElement.tag] = xmlElement.text
+                if grantDict.get(xmlElement.tag) is None:
+                    grantDict[xmlElement.tag] = xmlElement.text
+                elif xmlElement.text is not None:
+                    #More than one, they are all kept
+                    if not isinstance(grantDict[xmlElement.tag], list):
+                        grantDict[xmlElement.tag] = [grantDict[xmlElement.tag]]
+                    grantDict[xmlElement.tag].append(xmlElement.text)
             else:
-                if xmlElement.tag not in grantDict:
+                #There may have been empty ones or ones with only text before
+                if grantDict.get(xmlElement.tag) is None:
                     grantDict[xmlElement.tag] = []
+                elif not isinstance(grantDict[xmlElement.tag], list):
+                    grantDict[xmlElement.tag] = [grantDict[xmlElement.tag]]
                 elmComps = []
                 for subElement in xmlElement:
                     if subElement.text is not None:
-- 
2.43.0


From d5cd102be628787e349adf6f88e482f9b3c89554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:29 +0000
Subject: [PATCH 90/98] fix: graphStats gave numbers of nodes and edges above a
 million with six digits only

---
 metaknowledge/graphHelpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 0ee9b4e..17c80a9 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -766,33 +766,33 @@ def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'tr
     if 'nodes' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} nodes".format(len(G.nodes())))
+                stsData.append("{} nodes".format(len(G.nodes())))
             else:
-                stsData.append("Nodes: {:G}".format(len(G.nodes())))
+                stsData.append("Nodes: {}".format(len(G.nodes())))
         else:
             stsData['nodes'] = len(G.nodes())
     if 'edges' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} edges".format(len(G.edges())))
+                stsData.append("{} edges".format(len(G.edges())))
             else:
-                stsData.append("Edges: {:G}".format(len(G.edges())))
+                stsData.append("Edges: {}".format(len(G.edges())))
         else:
             stsData['edges'] = len(G.edges())
     if 'isolates' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} isolates".format(len(list(nx.isolates(G)))))
+                stsData.append("{} isolates".format(len(list(nx.isolates(G)))))
             else:
-                stsData.append("Isolates: {:G}".format(len(list(nx.isolates(G)))))
+                stsData.append("Isolates: {}".format(len(list(nx.isolates(G)))))
         else:
             stsData['isolates'] = len(list(nx.isolates(G)))
     if 'loops' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} self loops".format(len(list(nx.selfloop_edges(G)))))
+                stsData.append("{} self loops".format(len(list(nx.selfloop_edges(G)))))
             else:
-                stsData.append("Self loops: {:G}".format(len(list(nx.selfloop_edges(G)))))
+                stsData.append("Self loops: {}".format(len(list(nx.selfloop_edges(G)))))
         else:
             stsData['loops'] = len(list(nx.selfloop_edges(G)))
     if 'density' in stats:
-- 
2.43.0


From 330c75e7398011ee9bddb857198da8ba6ba0ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 91/98] fix: the binary form of a Medline or Scopus record was
 not the original

It was written as if it were a WOS record; a Scopus record came out with a line for every character.
---
 metaknowledge/medline/recordMedline.py | 8 ++++++++
 metaknowledge/scopus/recordScopus.py   | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index cb8ed8c..100eb80 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -47,6 +47,14 @@ class MedlineRecord(ExtendedRecord):
                 error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
+    def __bytes__(self):
+        """Returns the binary form of the original"""
+        if self.bad:
+            return ExtendedRecord.__bytes__(self)
+        f = io.StringIO()
+        self.writeRecord(f)
+        return bytes(f.getvalue(), self.encoding())
+
     def encoding(self):
         return 'latin-1'
 
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index ae9cad4..4898d3a 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -2,6 +2,7 @@
 
 import collections
 import csv
+import io
 import re
 
 from .tagProcessing.tagFunctions import scopusTagToFunction
@@ -84,6 +85,14 @@ class ScopusRecord(ExtendedRecord):
                 error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
+    def __bytes__(self):
+        """Returns the binary form of the original"""
+        if self.bad:
+            return ExtendedRecord.__bytes__(self)
+        f = io.StringIO()
+        self.writeRecord(f)
+        return bytes(f.getvalue(), self.encoding())
+
     def encoding(self):
         return 'utf-8'
 
-- 
2.43.0


From 4a8f1457a7386cea7efddac4a9dcef1ece111322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:39 +0000
Subject: [PATCH 92/98] fix: <= and >= of collections compared only their sizes

Collections have all the methods of sets, for which they mean subset and superset.
---
 metaknowledge/mkCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index ef86d80..fd6f586 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -91,13 +91,13 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         if type(self) != type(other):
             return NotImplemented
         else:
-            return len(self) <= len(other)
+            return self._collection <= other._collection
 
     def __ge__(self, other):
         if type(self) != type(other):
             return NotImplemented
         else:
-            return len(self) >= len(other)
+            return self._collection >= other._collection
 
     def __eq__(self, other):
         if type(self) != type(other):
-- 
2.43.0


From 597aaa12dcae8b1f63849205fcf3e6d648089e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:13 +0000
Subject: [PATCH 93/98] fix: expandedCore failed on records citing themselves
 and left unweighted authors unlinked

A self loop changed the edges while they were being copied, and of three or more authors in a
network without weights only the first was linked to all the others.
---
 metaknowledge/recordCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index fef773e..b3bd149 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1812,7 +1812,9 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                                 G.edges[citeID1, citeID2]['weight'] += 1
                             except KeyError:
                                 G.add_edge(citeID1, citeID2, weight = 1)
-                        for e1, e2, data in G.edges(citeID1, data = True):
+                        else:
+                            G.add_edge(citeID1, citeID2)
+                        for e1, e2, data in list(G.edges(citeID1, data = True)):
                             G.add_edge(citeID2, e2, **data)
 
 
-- 
2.43.0


From 7d7330ff557557a6a94548610a4b136d76352740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 94/98] fix: co-investigator networks counted the later
 investigators of a grant several times

The n-th investigator of one grant got the count n.
---
 metaknowledge/grantCollection.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index a3b32bb..9a5a2ee 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -196,38 +196,23 @@ class GrantCollection(CollectionWithIDs):
                     investList = G.getInstitutions(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
+                for invest in investList:
+                    if invest[0] not in grph:
+                        if count:
+                            grph.add_node(invest[0], count = 1, field = invest[1])
+                        else:
+                            grph.add_node(invest[0], field = invest[1])
+                    elif count:
+                        grph.nodes[invest[0]]['count'] += 1
                 if len(investList) > 1:
                     for i, invest1 in enumerate(investList):
-                        if invest1[0] not in grph:
-                            if count:
-                                grph.add_node(invest1[0], count = 1, field = invest1[1])
-                            else:
-                                grph.add_node(invest1[0], field = invest1[1])
-                        elif count:
-                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
                                 grph.add_edge(invest1[0], invest2[0], weight = 1)
                             else:
                                 grph.add_edge(invest1[0], invest2[0])
-                elif len(investList) > 0:
-                    invest1 = investList[0]
-                    if invest1[0] not in grph:
-                        if count:
-                            grph.add_node(invest1[0], count = 1, field = invest1[1])
-                        else:
-                            grph.add_node(invest1[0], field = invest1[1])
-                    elif count:
-                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
-- 
2.43.0


From e04cef0cb7a69aed9f5e16d076fce871e0a5742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:30 +0000
Subject: [PATCH 95/98] fix: the journal database lost the names of an
 abbreviation that is listed on several pages

---
 metaknowledge/journalAbbreviations/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index ee5c36e..82456e3 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -92,7 +92,8 @@ def _getCurrentj9Dict():
         d = _getDict(urllib.request.urlopen(url))
         if len(d) == 0:
             raise RuntimeError("Parsing failed, this is could require an update of the parser.")
-        j9Dict.update(d)
+        for k, names in d.items():
+            j9Dict.setdefault(k, []).extend(names)
     return j9Dict
 
 @contextlib.contextmanager
-- 
2.43.0


From 313f169d8738d7bc8640ed8c9879fc2115f0baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:12 +0000
Subject: [PATCH 96/98] fix: mdToNb made invalid notebooks of files with
 backslashes or control characters and lost the end of files without a final
 newline

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index 7f5616b..5097d8f 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -1,5 +1,6 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
 import argparse
+import json
 import re
 import os.path
 import subprocess
@@ -103,9 +104,11 @@ def convert(file):
 
 def stringPreprossesing(s):
     s = s.lstrip('\n')
-    s = s.replace(r'"', r'\"')
-    s = s.replace('\n', '\\n",\n     "')[:-11]
-    return s
+    if s.endswith('\n'):
+        s = s[:-1]
+    lines = s.split('\n')
+    lines = [l + '\n' for l in lines[:-1]] + lines[-1:]
+    return '",\n     "'.join(json.dumps(l, ensure_ascii = False)[1:-1] for l in lines)
 
 
 def writeMDcell(s):
-- 
2.43.0


From 7058bcf0a3e73465aa19388aa17768999b74f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:12 +0000
Subject: [PATCH 97/98] fix: mdToNb emptied the old notebook when the file
 could not be read, hid failed writes and used the locale's encoding

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index 5097d8f..bb039dd 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -97,8 +97,9 @@ def convertString(file):
 def convert(file):
     nameCompts = os.path.splitext( os.path.expanduser(os.path.normpath(file.name)))
     fileName = nameCompts[0] + '.ipynb'
-    outFile = open(fileName, 'w+')
-    outFile.write(convertString(file))
+    notebook = convertString(file)
+    with open(fileName, 'w', encoding = 'utf-8') as outFile:
+        outFile.write(notebook)
     return fileName
 
 
-- 
2.43.0


From 9950ab85ac7ab35c6673c9a3e3cadf903849a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:12 +0000
Subject: [PATCH 98/98] fix: mdToNb replaced a notebook that was given to it
 with garbage

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index bb039dd..d4823a7 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -97,6 +97,8 @@ def convertString(file):
 def convert(file):
     nameCompts = os.path.splitext( os.path.expanduser(os.path.normpath(file.name)))
     fileName = nameCompts[0] + '.ipynb'
+    if os.path.exists(fileName) and os.path.samefile(file.name, fileName):
+        raise ValueError("'{}' would be overwritten by its own notebook".format(file.name))
     notebook = convertString(file)
     with open(fileName, 'w', encoding = 'utf-8') as outFile:
         outFile.write(notebook)
-- 
2.43.0

