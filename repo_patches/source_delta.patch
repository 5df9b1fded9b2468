From f6d94098b51a173c8105f2fad85dcbe0b516c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 001/100] fix: use Graph.nodes, networkx removed Graph.node and
 nodes_iter()

---
 metaknowledge/diffusion.py       | 16 ++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From 2472547671ca74db175a40315fa3c91be9c9b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 002/100] fix: binary collection operators keep the errors of
 the left operand

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..2da31a9 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From 8dafdbd5df18d7243eccf248bfd8604c563a446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 003/100] fix: collections can be created from one-shot
 iterables

---
 metaknowledge/grantCollection.py  | 3 ++-
 metaknowledge/recordCollection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..1d4b5b6 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,10 +123,11 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..213ea95 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,10 +151,11 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From 3b28573605f8b274aca48cb8a562963815035cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 004/100] fix: writeFile writes the header of the records the
 collection holds

---
 metaknowledge/recordCollection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 213ea95..3ba4298 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -223,7 +223,8 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `None`, if given the output file will written to _fanme_, if `None` the `RecordCollection`'s name's first 200 characters are used with the suffix .isi
         """
-        if len(self._collectedTypes) < 2:
+        recordTypes = {type(R).__name__ for R in self._collection}
+        if len(recordTypes) < 2:
             recEncoding = self.peek().encoding()
         else:
             recEncoding = 'utf-8'
@@ -231,17 +232,17 @@ class RecordCollection(CollectionWithIDs):
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
             f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
-        if self._collectedTypes == {'WOSRecord'}:
+        if recordTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
-        elif self._collectedTypes == {'MedlineRecord'}:
+        elif recordTypes == {'MedlineRecord'}:
             f.write('\n')
-        elif self._collectedTypes == {'ScopusRecord'}:
+        elif recordTypes == {'ScopusRecord'}:
             f.write("\ufeff{}\n".format(','.join(scopusHeader)))
         for R in self._collection:
             R.writeRecord(f)
             f.write('\n')
-        if self._collectedTypes == {'WOSRecord'}:
+        if recordTypes == {'WOSRecord'}:
             f.write('EF')
         f.close()
 
-- 
2.43.0


From 01e36591a807b202b2faad029616e7f39a3c926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 005/100] fix: bad records keep the error that made them bad

---
 metaknowledge/WOS/recordWOS.py         | 7 ++++---
 metaknowledge/medline/recordMedline.py | 7 ++++---
 metaknowledge/scopus/recordScopus.py   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..0697285 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -78,8 +78,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', WOSRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadWOSRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'UT' in fieldDict:
@@ -87,7 +87,8 @@ class WOSRecord(ExtendedRecord):
             else:
                 self._wosNum = 'WOS:Missing'
                 bad = True
-                error = BadWOSRecord("Missing WOS number")
+                if error is None:
+                    error = BadWOSRecord("Missing WOS number")
         ExtendedRecord.__init__(self, fieldDict, self._wosNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..259f88a 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -35,8 +35,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', PubmedRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadPubmedRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'PMID' in fieldDict:
@@ -44,7 +44,8 @@ class MedlineRecord(ExtendedRecord):
             else:
                 self._pubNum = None
                 bad = True
-                error = BadPubmedRecord("Missing PMID")
+                if error is None:
+                    error = BadPubmedRecord("Missing PMID")
         ExtendedRecord.__init__(self, fieldDict, self._pubNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..23d13db 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -72,8 +72,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 raise RCTypeError("Unsupported input type '{}', ScopusRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except (BadScopusRecord, IndexError) as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         if fieldDict is not None:
             if 'EID' in fieldDict:
@@ -81,7 +81,8 @@ class ScopusRecord(ExtendedRecord):
             else:
                 self._scopusNum = None
                 bad = True
-                error = BadScopusRecord("Missing EID")
+                if error is None:
+                    error = BadScopusRecord("Missing EID")
         ExtendedRecord.__init__(self, fieldDict, self._scopusNum, bad, error, sFile = sFile, sLine = sLine)
 
     def encoding(self):
-- 
2.43.0


From fb2298f93a754b7f642f0856c16c60d8f54006cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 006/100] fix: a WOS record starting with a continuation line
 is bad, not an IndexError that hides the rest of the file

---
 metaknowledge/WOS/recordWOS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 0697285..60fcbbe 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -184,6 +184,8 @@ def recordParser(paper):
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
             #No new tag append line to current tag (last tag in tagList)
+            if len(tagList) < 1:
+                raise BadWOSRecord("Continuation line without a tag on line {} : {}".format(l[0], l[1]))
             tagList[-1][1].append(l[1][3:-1])
         else:
             #New tag create new entry at the end of tagList
-- 
2.43.0


From 014cb0104ed61b8f51c0a4c31446e5c6a2c3cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 007/100] fix: Medline and Scopus fields without a processing
 function are readable

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 259f88a..ddbb25f 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -57,7 +57,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 23d13db..9f42072 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -94,7 +94,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From 0b52b3ca19109378fe3f9981a967fce8ddc95a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 008/100] fix: numeric months are integers

---
 metaknowledge/WOS/tagProcessing/helpFuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/helpFuncs.py b/metaknowledge/WOS/tagProcessing/helpFuncs.py
index 5446afe..79cc0d5 100644
--- a/metaknowledge/WOS/tagProcessing/helpFuncs.py
+++ b/metaknowledge/WOS/tagProcessing/helpFuncs.py
@@ -18,7 +18,7 @@ def getMonth(s):
     else:
         monthOrSeason = s.split('-')[-1].upper()
         if monthOrSeason.isdigit():
-            return monthOrSeason
+            return int(monthOrSeason)
         else:
             return monthDict[monthOrSeason]
 
-- 
2.43.0


From 9daa68371e6d5aa4590edb61fbb5220d003d941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 009/100] fix: Record.copy gives the completely decoupled copy
 it documents

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..345880c 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -209,7 +209,7 @@ class Record(collections.abc.Mapping, collections.abc.Hashable):
         > A completely decoupled copy of the original
         """
         c = copy.copy(self)
-        c._fieldDict = c._fieldDict.copy()
+        c._fieldDict = copy.deepcopy(c._fieldDict)
         return c
 
     #Making these immutable
-- 
2.43.0


From 95c22a34da50998f3e761b84819f37f265d5f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 010/100] fix: Scopus cells starting with a comma, $ or | are
 split correctly

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 9f42072..654660e 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -165,7 +165,7 @@ class ScopusRecord(ExtendedRecord):
             return ret
 
 firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+innerQuotingRegex = re.compile(r'("")*"([^"]|$)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
-- 
2.43.0


From 731399fafe5a6c60dbb33ac5916f313817880e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 011/100] fix: empty quoted Scopus cells, as written by
 writeFile, are missing values

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 654660e..4d005f1 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -191,7 +191,7 @@ def scopusRecordParser(record, header = None):
     quoted = False
     for key in reversed(header):
         currentVal = splitRecord.pop()
-        if currentVal == '':
+        if currentVal == '' or currentVal == '""':
             pass
         elif currentVal[-1] == '"':
             if re.match(firstQuotingRegex, currentVal) is None:
-- 
2.43.0


From 85305b838e48c2cc08e99902e300bb3b9580abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 012/100] fix: the last character of a Scopus file without a
 final newline is kept

---
 metaknowledge/scopus/recordScopus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 4d005f1..bef06c7 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -186,7 +186,9 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    if record.endswith('\n'):
+        record = record[:-1]
+    splitRecord = record.split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
-- 
2.43.0


From 6d6ddefd25fd11c4e4d99cc240a4a3d2ae703ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 013/100] fix: Scopus columns are assigned by the header of the
 file when it is in another order

---
 metaknowledge/scopus/scopusHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..d778c7b 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -69,7 +69,7 @@ def scopusParser(scopusFile):
             #Get rid of the BOM
             openfile.read(1)
             header = openfile.readline()[:-1].split(',')
-            if len(set(header) ^ set(scopusHeader)) == 0:
+            if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-- 
2.43.0


From ecf28277aae791bd5f980b15db69861580f30efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 014/100] fix: short lines in Medline records make the record
 bad instead of raising IndexError

---
 metaknowledge/medline/recordMedline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ddbb25f..a2fe0c3 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -109,7 +109,7 @@ def medlineRecordParser(record):
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
         contents = line[6:-1]
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
-- 
2.43.0


From f1350c81b40d531ae19e00d8097b78809d476679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 015/100] fix: values given before the first author of a
 Medline record (AD, AUID) are written, too

---
 metaknowledge/medline/recordMedline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index a2fe0c3..bf52e8b 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -82,11 +82,17 @@ class MedlineRecord(ExtendedRecord):
                 if tag in authorBasedTags:
                     continue
                 else:
+                    if tag == 'AU':
+                        #Values given before the first author
+                        for authVal in authTags.pop('None', []):
+                            f.write(authVal)
                     for v in value:
                         f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v.replace('\n', '\n      ')))
                         if tag == 'AU':
                             for authVal in authTags.get(v,[]):
                                 f.write(authVal)
+            for authVal in authTags.pop('None', []):
+                f.write(authVal)
 
 def medlineRecordParser(record):
     """The parser [`MedlineRecord`](../classes/MedlineRecord.html#metaknowledge.medline.MedlineRecord) use. This takes an entry from [medlineParser()](#metaknowledge.medline.medlineHandlers.medlineParser) and parses it a part of the creation of a `MedlineRecord`.
-- 
2.43.0


From 4b8f0bd58c5af0218f54d7d9c7a26d828c71d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 016/100] fix: the last character of a Medline file without a
 final newline is kept

---
 metaknowledge/medline/recordMedline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index bf52e8b..2eb14bd 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -114,7 +114,7 @@ def medlineRecordParser(record):
     mostRecentAuthor = None
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
-        contents = line[6:-1]
+        contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
@@ -126,7 +126,7 @@ def medlineRecordParser(record):
             except KeyError:
                 tagDict[tag] = [contents]
         elif line[:6] == '      ':
-            tagDict[tag][-1] += '\n' + line[6:-1]
+            tagDict[tag][-1] += '\n' + contents
         elif line == '\n':
             break
         else:
-- 
2.43.0


From fdf378a65193e3fdf533fbd231530a6cbf078147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 017/100] fix: special fields of ProQuest records have the
 documented types (author lists, integer year, abstract string)

---
 .../proquest/tagProcessing/specialFunctions.py   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..0c20823 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,16 +1,24 @@
+import re
+
+def year(R):
+    y = re.search(r'\d{4}', R['Degree date'])
+    if y is None:
+        raise KeyError("Unable to extract a year")
+    return int(y.group(0))
+
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
     'beginningPage' : lambda R : 0,
     'keywords' : lambda R : R['Identifier / keyword'],
-    'abstract' : lambda R : R['Abstract'],
+    'abstract' : lambda R : '\n'.join(R['Abstract']),
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
-    'year' : lambda R : R['Degree date'],
+    'year' : year,
     #'j9' : '',
     #'journal' : '',
     'title' : lambda R : R['Title'],
-- 
2.43.0


From 09c07417af28a59c2e01290b8b98ec2080ee6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 018/100] fix: unreadable lines and numbers in ProQuest files
 are recorded as errors, not raised as KeyErrors

---
 metaknowledge/proquest/proQuestHandlers.py |  4 ++--
 metaknowledge/proquest/recordProQuest.py   | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..6bf3e97 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -85,8 +85,8 @@ def proQuestParser(proFile):
                 elif line.startswith('Document '):
                     n = int(line[9:].split(' of ')[0])
                     R = ProQuestRecord(f, sFile = proFile, sLine = lineNum)
-                    if R.get('Title') != nameDict[n]:
-                        error = BadProQuestFile("The numbering of the titles at the beginning of the file does not match the records inside. Line {} has a record titled '{}' with number {}, the name should be '{}'.".format(lineNum, R.get('Title', "TITLE MISSING"), n, nameDict[n]))
+                    if n not in nameDict or R.get('Title') != nameDict[n]:
+                        error = BadProQuestFile("The numbering of the titles at the beginning of the file does not match the records inside. Line {} has a record titled '{}' with number {}, the name should be '{}'.".format(lineNum, R.get('Title', "TITLE MISSING"), n, nameDict.get(n)))
                         raise StopIteration
                     recSet.add(R)
                     lineNum, line = next(f)
diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..4aca8cc 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -36,15 +36,16 @@ class ProQuestRecord(ExtendedRecord):
             else:
                 raise TypeError("Unsupported input type '{}', ProQuestRecords cannot be created from '{}'".format(inRecord, type(inRecord)))
         except BadProQuestRecord as b:
-            self.bad = True
-            self.error = b
+            bad = True
+            error = b
             fieldDict = collections.OrderedDict()
         try:
             self._proID = "PROQUEST:{}".format(fieldDict["ProQuest document ID"][0])
         except KeyError:
             self._proID = "PROQUEST:MISSING"
             bad = True
-            error = BadProQuestRecord("Missing ProQuest document ID")
+            if error is None:
+                error = BadProQuestRecord("Missing ProQuest document ID")
         ExtendedRecord.__init__(self, fieldDict, self._proID, bad, error, sFile =sFile, sLine = sLine)
 
     def encoding(self):
@@ -104,5 +105,8 @@ def proQuestRecordParser(enRecordFile, recNum):
             if currentEntry == 'Author':
                 currentEntry = 'url'
         else:
-            tagDict[currentEntry].append(line.rstrip())
+            try:
+                tagDict[currentEntry].append(line.rstrip())
+            except KeyError:
+                raise BadProQuestRecord("Line {} belongs to no field: '{}'".format(lineNum, line))
     return tagDict
-- 
2.43.0


From 67ae7458ce5b776541d90d8c248af1a837bab3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 019/100] fix: WOS records skipped because of a malformed tag
 are recorded as an error

---
 metaknowledge/WOS/wosHandlers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..dc60dff 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -73,6 +73,9 @@ def wosParser(isifile):
                     try:
                         plst.add(WOSRecord(itertools.chain([line], f), sFile = isifile, sLine = line[0]))
                     except BadWOSFile as e:
+                        #The rest of the damaged record is skipped
+                        if error is None:
+                            error = BadWOSFile("The file '{}' has a record that could not be parsed:\n{}".format(isifile, str(e)))
                         try:
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
-- 
2.43.0


From 4e0f58578556fa5fdd559824877784464a639d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 020/100] fix: a Medline record that runs into the next one is
 bad instead of hiding it

---
 metaknowledge/medline/recordMedline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 2eb14bd..1438798 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -117,6 +117,8 @@ def medlineRecordParser(record):
         contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
+            if tag == 'PMID' and tag in tagDict:
+                raise BadPubmedRecord("Second PMID in a record, the blank line before it is missing, on line {}: '{}'".format(lineNum, line))
             if tag == 'AU':
                 mostRecentAuthor = contents
             if tag in authorBasedTags:
-- 
2.43.0


From 47058da91c2b31d272a600b3e831c4933ec15b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 021/100] fix: a Scopus row with too many cells (two rows run
 together) is bad instead of hiding the first row

---
 metaknowledge/scopus/recordScopus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index bef06c7..0fc9f27 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -221,4 +221,6 @@ def scopusRecordParser(record, header = None):
             tagDict[key] = valString
         else:
             tagDict[key] = currentVal
+    if len(splitRecord) > 0:
+        raise BadScopusRecord("The row has more values than there are columns")
     return tagDict
-- 
2.43.0


From adbe291bdf8b57c895330fda232614c4257b6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:52 +0000
Subject: [PATCH 022/100] fix: CSV grant files without problems are not
 reported as bad (StopIteration inside generators)

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From 5a3d1cf999e4695e19bff6a643cb88673e540816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 023/100] fix: a damaged or foreign cache file is ignored
 instead of raising, a GrantCollection's cache is not one of its files

---
 metaknowledge/grantCollection.py | 11 ++++++++---
 metaknowledge/mkCollection.py    |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 1d4b5b6..d65531c 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,8 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            if cached:
+                cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -67,7 +69,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith('mkGrantDirCache') and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
@@ -132,8 +134,11 @@ class GrantCollection(CollectionWithIDs):
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
             if cached:
-                PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
-                self._createCache(cacheName, flist, name, extension)
+                if cacheName is None:
+                    pass
+                else:
+                    PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
+                    self._createCache(cacheName, flist, name, extension)
             try:
                 PBar.finish("Done making a GrantCollection of {} Grants".format(len(self)))
             except AttributeError:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 2da31a9..16f70d1 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -372,8 +372,11 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             with open(cacheFile, 'rb') as f:
                 try:
                     dat, RC = pickle.load(f)
-                except pickle.PickleError as e:
+                except Exception as e:
+                    #A damaged pickle can raise nearly anything
                     raise cacheError("pickle Error: {}".format(e))
+            if type(RC) is not type(self) or not isinstance(dat, dict):
+                raise cacheError("Not a cache of this type of collection")
             if dat["metaknowledge Version"] != __version__:
                 raise cacheError("mk version mismatch")
             if dat["Collection Name"] != rcName:
-- 
2.43.0


From d075a171af9780f9ea45cb0deb59ad1986583bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 024/100] fix: ids of grants do not change between runs of
 Python

---
 metaknowledge/grants/baseGrant.py  | 7 ++++++-
 metaknowledge/grants/cihrGrant.py  | 4 ++--
 metaknowledge/grants/nsercGrant.py | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c2e8470..97281ef 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -4,6 +4,7 @@ except ImportError:
     import collections
     collections.abc = collections
 import csv
+import hashlib
 import os
 
 from ..mkRecord import Record
@@ -125,6 +126,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
+def stableHash(s):
+    #hash() of a string differs between runs of Python, ids must not
+    return int(hashlib.md5(str(s).encode('utf-8', 'surrogatepass')).hexdigest()[:15], 16)
+
 class FallbackGrant(Grant):
     """A subclass of [Grant](./grants.html#metaknowledge.grants.Grant), it has the same attributes and is returned from the fall back constructor for grants.
     """
@@ -133,7 +138,7 @@ class FallbackGrant(Grant):
     def __init__(self, original, grantdDict, sFile = "", sLine = 0):
         #We do not known anything about the structure of the grant so there is nothing to check about causing an error
         #The id needs to be unique so hashing the original will always give us that
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
         Grant.__init__(self, original, grantdDict, idValue, False, None, sFile = sFile, sLine = sLine)
 
 def isFallbackGrantFile(fileName, useFileName = True, encoding = 'latin-1', dialect = 'excel'):
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..a77c799 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -1,7 +1,7 @@
 import os.path
 import csv
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class CIHRGrant(Grant):
@@ -13,7 +13,7 @@ class CIHRGrant(Grant):
             error = BadGrant("Missing 'PI Names'")
 
         #Source file - line number - 6 character long numeric hash
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, stableHash(original))
 
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..c67b92e 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -1,7 +1,7 @@
 import csv
 import os.path
 
-from .baseGrant import Grant, csvAndLinesReader
+from .baseGrant import Grant, csvAndLinesReader, stableHash
 from ..mkExceptions import BadGrant
 
 class NSERCGrant(Grant):
@@ -11,7 +11,7 @@ class NSERCGrant(Grant):
         if grantdDict.get('Cle', '') == '':
             bad = True
             error = BadGrant("Missing 'CLE'")
-            idValue = "NSERC:{}".format(hash(original))
+            idValue = "NSERC:{}".format(stableHash(original))
         else:
             idValue = "NSERC:{}".format(grantdDict.get('Cle', ''))
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
-- 
2.43.0


From 33f18451328e8a5fb78f6c510a89196745175f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:00 +0000
Subject: [PATCH 025/100] fix: pickled citations stay comparable in another run
 of Python

---
 metaknowledge/citation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..e231563 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -180,6 +180,11 @@ class Citation(collections.abc.Hashable):
         except AttributeError:
             self._hash = hash(self.ID())
             return self._hash
+
+    def __getstate__(self):
+        #hash() of a string differs between runs of Python, so the stored hash cannot be kept in pickles
+        return {k : v for k, v in self.__dict__.items() if k != '_hash'}
+
     #@profile
     def __eq__(self, other):
         """
-- 
2.43.0


From 8170e15ff5c2145f54f57b957aeb559d536e32c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 026/100] fix: investigators of grants with an empty field are
 found

---
 metaknowledge/grants/baseGrant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index 97281ef..36c40c6 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -67,6 +67,9 @@ class Grant(Record, collections.abc.MutableMapping):
                 except KeyError:
                     pass
                 except AttributeError:
+                    if self[tag] is None:
+                        #Nothing was given for the tag
+                        continue
                     tval = [auth.split(seperator)[0] for auth in self[tag]]
                     if _getTag:
                         investVal += [(t.strip(), tag) for t in tval]
-- 
2.43.0


From d0cf75a2f0af9476ec164b9abf80bc875ac6b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 027/100] fix: getInvestigators and getInstitutions do not
 change the list of tags they are given

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index c67b92e..0b17976 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..fcd1399 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = list(tags) + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = list(tags) + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From 55b1bec467e6a9a70e46f85406b748a2f75b66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 028/100] fix: grants whose identifying field is there but
 empty are bad

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 2 +-
 metaknowledge/grants/nsfGrant.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index a77c799..01d095d 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -8,7 +8,7 @@ class CIHRGrant(Grant):
     def __init__(self, original, grantdDict, sFile, sLine):
         bad = False
         error = None
-        if grantdDict.get('PI Names', '') == '':
+        if not grantdDict.get('PI Names', ''):
             bad = True
             error = BadGrant("Missing 'PI Names'")
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 0b17976..79d1d81 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -8,7 +8,7 @@ class NSERCGrant(Grant):
     def __init__(self, original, grantdDict, sFile, sLine):
         bad = False
         error = None
-        if grantdDict.get('Cle', '') == '':
+        if not grantdDict.get('Cle', ''):
             bad = True
             error = BadGrant("Missing 'CLE'")
             idValue = "NSERC:{}".format(stableHash(original))
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index fcd1399..8729241 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -11,7 +11,7 @@ class NSFGrant(Grant):
         bad = False
         error = None
         originalName = os.path.basename(sFile)
-        if grantdDict.get('AwardID', '') == '':
+        if not grantdDict.get('AwardID', ''):
             bad = True
             error = BadGrant("Missing 'AwardID'")
             idValue = "NSF:{}".format(originalName)
-- 
2.43.0


From 43a489b5af99edbdfb4be65de89c929af7ec4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:53 +0000
Subject: [PATCH 029/100] fix: NSERC rows with missing cells can be merged

---
 metaknowledge/grants/nsercGrant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 79d1d81..7506503 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -18,9 +18,9 @@ class NSERCGrant(Grant):
 
     def update(self, other):
         for field, value in other._fieldDict.items():
-            if value == '':
+            if not value:
                 continue
-            elif self._fieldDict.get(field, '') == '':
+            elif not self._fieldDict.get(field, ''):
                 self._fieldDict[field] = value
             else:
                 self._fieldDict[field] += "; {}".format(value)
-- 
2.43.0


From 8a9dc48d14d95652afe8960108fc79b67ee2fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 030/100] fix: Citation.Extra works on Scopus citations, which
 have no DOI

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index e231563..b3359bb 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -258,7 +258,7 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
+            if getattr(self, tag, False):
                 retVal += getattr(self, tag) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
-- 
2.43.0


From 8aa4e134c8e4e14f6fbd2784539785b8de0855ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 031/100] fix: citations of Scopus records for each of their
 authors separate the author from the rest

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 0fc9f27..0ced575 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -143,7 +143,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0


From eec8cf5619b4ba6de66b645ba8b6f000fa8c0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 032/100] fix: what a citation string holds besides the known
 fields is kept in misc and does not hide the DOI

---
 metaknowledge/citation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index b3359bb..0f7b717 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?$))", re.DOTALL)
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
@@ -119,7 +119,7 @@ class Citation(collections.abc.Hashable):
             self.P = regex.group(9)
             self.DOI = regex.group(11)
             if regex.group(12) is not None:
-                self.misc = regex.group(12)
+                self.misc = regex.group(13).strip(', ')
                 self.DOI = regex.group(15)
                 self.bad = True
                 self.error = BadCitation("The citation did not fully match the expected pattern")
-- 
2.43.0


From 457ffa0c6ba6f71c06848358ae9dd76ba61e94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 033/100] fix: pages of Scopus references without a volume are
 not taken for the volume

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 0f7b717..cda94ec 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -60,7 +60,7 @@ class Citation(collections.abc.Hashable):
     """
     wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?$))", re.DOTALL)
 
-    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
+    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
 
     #(.*?, )?[^,(]*\((\d{2,5}\))[^,]*(, [^,(]*( \(\d+\))?)?(, (p?p\. .*))?")
-- 
2.43.0


From 56202dfb751a3910f5fabca0b7670b0faaba3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 034/100] fix: writeBib skips bad records of all sources

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3ba4298..c07d68c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -16,7 +16,7 @@ from .progressBar import _ProgressBar
 from .WOS.tagProcessing.funcDicts import tagToFullDict, fullToTagDict, normalizeToTag
 from .citation import Citation
 from .fileHandlers import recordHandlers
-from .mkExceptions import BadWOSRecord, RCTypeError, BadInputFile, BadRecord, RCValueError, RecordsNotCompatible, UnknownFile
+from .mkExceptions import RCTypeError, BadInputFile, BadRecord, RCValueError, RecordsNotCompatible, UnknownFile
 
 from .mkCollection import CollectionWithIDs
 
@@ -413,7 +413,7 @@ class RecordCollection(CollectionWithIDs):
             try:
                 f.write('\n\n')
                 f.write(R.bibString(maxLength =  maxStringLength, WOSMode = wosMode, restrictedOutput = reducedOutput, niceID = niceIDs))
-            except BadWOSRecord:
+            except BadRecord:
                 pass
             except AttributeError:
                 raise RecordsNotCompatible("The Record '{}', with ID '{}' does not support writing to bibtext files.".format(R, R.id))
-- 
2.43.0


From 38d29e5db442fbf230d11fe37f01aa134c5a7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 035/100] fix: writeCSV does not change the lists of tags it is
 given and takes any iterable

---
 metaknowledge/recordCollection.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index c07d68c..df6f555 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -295,13 +295,9 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
-        for i in range(len(firstTags)):
-            if firstTags[i] in fullToTagDict:
-                firstTags[i] = fullToTagDict[firstTags[i]]
+        firstTags = [fullToTagDict.get(t, t) for t in firstTags]
         if onlyTheseTags:
-            for i in range(len(onlyTheseTags)):
-                if onlyTheseTags[i] in fullToTagDict:
-                    onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
+            onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
             retrievedFields = [t for t in firstTags if t in onlyTheseTags] + [t for t in onlyTheseTags if t not in firstTags]
         else:
             retrievedFields = firstTags
@@ -320,7 +316,7 @@ class RecordCollection(CollectionWithIDs):
         if numAuthors:
             csvWriterFields = retrievedFields + ["num-Authors"]
         else:
-            csvWriterFields = retrievedFields
+            csvWriterFields = list(retrievedFields)
         if genderCounts:
             csvWriterFields += ['num-Male', 'num-Female', 'num-Unknown']
         if splitByTag is None:
-- 
2.43.0


From 47b913548f7050715601a3c16e9c7b3e146d5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:59 +0000
Subject: [PATCH 036/100] fix: writeCSV can be split by every tag and into
 files in another directory

---
 metaknowledge/recordCollection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index df6f555..78f5c71 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -333,7 +333,9 @@ class RecordCollection(CollectionWithIDs):
                     continue
                 else:
                     if not isinstance(splitVal, list):
-                        splitVal = [str(splitVal)]
+                        splitVal = [splitVal]
+                    #Each value once, as the start of a file name
+                    splitVal = list(dict.fromkeys(str(v)[:200].replace(os.sep, '_') for v in splitVal))
             recDict = {}
             for t in retrievedFields:
                 value = R.get(t)
@@ -354,7 +356,7 @@ class RecordCollection(CollectionWithIDs):
                     if sTag in filesDict:
                         filesDict[sTag][1].writerow(recDict)
                     else:
-                        fname = "{}-{}".format(sTag[:200], baseFileName)
+                        fname = os.path.join(os.path.dirname(baseFileName), "{}-{}".format(sTag, os.path.basename(baseFileName)))
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
-- 
2.43.0


From a58aedc9a31a546634829f3c7403002184dddf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 037/100] fix: CSV columns of records from other sources than
 WOS hold their special fields

---
 metaknowledge/recordCollection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 78f5c71..7dad1d9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -295,6 +295,10 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
+        #The columns get the WOS names, but only WOS records have their values under those names
+        firstTags = list(firstTags)
+        onlyTheseTags = list(onlyTheseTags) if onlyTheseTags else None
+        requestedAs = {fullToTagDict.get(t, t) : t for t in firstTags + (onlyTheseTags or [])}
         firstTags = [fullToTagDict.get(t, t) for t in firstTags]
         if onlyTheseTags:
             onlyTheseTags = [fullToTagDict.get(t, t) for t in onlyTheseTags]
@@ -338,7 +342,7 @@ class RecordCollection(CollectionWithIDs):
                     splitVal = list(dict.fromkeys(str(v)[:200].replace(os.sep, '_') for v in splitVal))
             recDict = {}
             for t in retrievedFields:
-                value = R.get(t)
+                value = R.get(t if longNames else requestedAs.get(t, t))
                 if isinstance(value, str):
                     recDict[t] = value
                 elif hasattr(value, '__iter__'):
-- 
2.43.0


From 0c78826398a5e8801b43776209e955160475743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 038/100] fix: forNLP keeps the list of extra columns it is
 given, adds each once and finds the abstracts of all sources

---
 metaknowledge/recordCollection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 7dad1d9..03da7ca 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -657,16 +657,15 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
-                if builtinColumn in extraColumns:
-                    extraColumns.remove(builtinColumn)
+            #Each column once
+            extraColumns = [c for c in dict.fromkeys(extraColumns) if c not in retDict]
         for column in extraColumns:
             retDict[column] = []
         with _ProgressBar(*progArgs, **progKwargs) as PBar:
             for R in self:
                 pcount += 1
                 PBar.updateVal(pcount/ pmax, "Analyzing: {}".format(R))
-                abstract, copyrightString = abPrep(R.get('AB', ''))
+                abstract, copyrightString = abPrep(R.get('abstract', ''))
 
                 retDict['id'].append(R.id)
                 retDict['year'].append(R.get('year', ''))
-- 
2.43.0


From 81a4c9395136594be376d104be1f5aace80c22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 039/100] fix: forNLP and forBurst drop words of the drop list
 that stand next to each other or beside a line break

---
 metaknowledge/recordCollection.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 03da7ca..def6c61 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -496,10 +496,10 @@ class RecordCollection(CollectionWithIDs):
 
         def burstPreper(inString):
             if dropList is not None:
-                inString = " {} ".format(inString)
-                for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in inString:
-                        inString = inString.replace(dropS, ' ')
+                inString = " {} ".format(inString.replace('\n', ' '))
+                for s in dropList:
+                    #Neighbouring hits share the space between them
+                    inString = re.sub(" (?:{} )+".format(re.escape(s)), ' ', inString)
                 inString = inString[1:-1]
             if removeWhitespace:
                 inString = re.sub(whiteSpaceRegex, lambda x: ' ', inString, count = 0)
@@ -620,9 +620,9 @@ class RecordCollection(CollectionWithIDs):
             if dropList is not None:
                 #incase a drop string is on the edge
                 abst = " {} ".format(abst.replace('\n', ' '))
-                for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in abst:
-                        abst = abst.replace(dropS, ' ')
+                for s in dropList:
+                    #Neighbouring hits share the space between them
+                    abst = re.sub(" (?:{} )+".format(re.escape(s)), ' ', abst)
                 abst = abst[1:-1]
             if removeWhitespace:
                 abst = re.sub(whiteSpaceRegex, lambda x: ' ', abst, count = 0)
-- 
2.43.0


From 125dd1170a5c287fae6d8defd196d25263f1b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 040/100] fix: forBurst does not give empty words

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index def6c61..bb54b3a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -506,7 +506,7 @@ class RecordCollection(CollectionWithIDs):
             if lower:
                 inString = inString.lower()
             inString = re.sub(otherDropsRegex, otherRepl, inString, count = 0)
-            sTokens = inString.split(' ')
+            sTokens = [s for s in inString.split(' ') if s != '']
             if stemmer is not None:
                 retTokens = []
                 for token in sTokens:
-- 
2.43.0


From afe5153ba06daa0f678333304135c12c76c8d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 041/100] fix: makeDict does not change the list of tags it is
 given and finds the special fields of all sources

---
 metaknowledge/recordCollection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index bb54b3a..c0831d9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -723,11 +723,11 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
+        #The keys are the WOS names, but only WOS records have their values under those names
+        requestedAs = {}
         if onlyTheseTags:
-            for i in range(len(onlyTheseTags)):
-                if onlyTheseTags[i] in fullToTagDict:
-                    onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
-            retrievedFields = onlyTheseTags
+            requestedAs = {fullToTagDict.get(t, t) : t for t in onlyTheseTags}
+            retrievedFields = list(requestedAs)
         else:
             retrievedFields = []
             for R in self:
@@ -751,8 +751,8 @@ class RecordCollection(CollectionWithIDs):
                 retDict['num-Male'].append(m)
                 retDict['num-Female'].append(f)
                 retDict['num-Unknown'].append(u)
-            for k, v in R.subDict(retrievedFields, raw = raw).items():
-                retDict[k].append(v)
+            for k in retrievedFields:
+                retDict[k].append(R.get(k if longNames else requestedAs.get(k, k), raw = raw))
         return retDict
 
     def rpys(self, minYear = None, maxYear = None, dropYears = None, rankEmptyYears = False):
-- 
2.43.0


From 360193f6bcc3991aa70c1a14d33db71610a1b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 042/100] fix: getCitations drops citations whose requested
 field is missing

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 345880c..ad31dee 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -578,7 +578,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for cite in self.get('citations', []):
                 try:
                     targetVal = getattr(cite, field)
-                    if values is None or targetVal in values:
+                    if targetVal is not None and (values is None or targetVal in values):
                         retCites.append(cite)
                 except AttributeError:
                     pass
-- 
2.43.0


From 004c07258b645d14dd7e0f2747a19cf542c5da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 043/100] fix: rankedSeries tables are in the requested
 direction

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 16f70d1..fe1c71b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -662,6 +662,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From b9ee19f3a0dc7f40e8a93c704f9eca6734697553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:32 +0000
Subject: [PATCH 044/100] fix: cooccurrenceCounts raises the documented
 TagError when no counted tag is given

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index fe1c71b..1a0e38d 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -777,7 +777,7 @@ class CollectionWithIDs(Collection):
         if not isinstance(keyTag, str):
             raise TagError("'{}' is not a string it cannot be used as a tag.".format(keyTag))
         if len(countedTags) < 1:
-            TagError("You need to provide atleast one tag")
+            raise TagError("You need to provide atleast one tag")
         for tag in countedTags:
             if not isinstance(tag, str):
                 raise TagError("'{}' is not a string it cannot be used as a tag.".format(tag))
-- 
2.43.0


From eb6024ef714689c9ff1af9b148e3859a638ff811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 045/100] fix: two-mode and multi-mode networks count nodes
 that first occur without an edge

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 1a0e38d..68fd960 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1144,9 +1144,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, type = tag1, count = 1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1298,9 +1298,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, type = vlst1[0], count = 1)
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From 6b16c2ff90e7665f2b6152df093c5317772171ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 046/100] fix: multi-mode networks can be made with an edge
 attribute

---
 metaknowledge/mkCollection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 68fd960..10c51db 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1247,6 +1247,10 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute is not None:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1270,10 +1274,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph.edges[node1, node2, edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From 2af7ce810c16de0dc11e8cc54e365867afa13dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 047/100] fix: the type of a multi-mode node does not grow with
 each occurrence

---
 metaknowledge/mkCollection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 10c51db..2ca749b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1309,9 +1309,7 @@ class CollectionWithIDs(Collection):
                                 else:
                                     grph.add_node(node1)
                             elif recordType:
-                                try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
-                                except KeyError:
+                                if 'type' not in grph.nodes[node1]:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
-- 
2.43.0


From 8578724f52be58f58b724a886899825e3e2ce4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 048/100] fix: multi-level networks weigh the parallel edges of
 an edge attribute

---
 metaknowledge/mkCollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 2ca749b..b48bbbd 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -894,10 +894,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph.edges[node1, node2, edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From 0d020d629c74bc13aa67c56c67dec0f96d490209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 049/100] fix: edge and node attributes of multi-level networks
 can be fields with a single value

---
 metaknowledge/mkCollection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index b48bbbd..408f124 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -871,9 +871,15 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
-- 
2.43.0


From 110537a085469ffb308a1c9051882f3eccfc8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 050/100] fix: nodes of multi-level networks do not share their
 list of attribute values

---
 metaknowledge/mkCollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 408f124..4704513 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -926,7 +926,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = list(nodeVals)
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -943,7 +943,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = list(nodeVals)
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -966,7 +966,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = list(nodeVals)
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From 12f3e43d05d47c24df6dedae5539d6e70b93fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 051/100] fix: co-author networks count each author and cited
 work once per record, not once per co-author

---
 metaknowledge/recordCollection.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index c0831d9..9b82fc6 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1029,28 +1029,22 @@ class RecordCollection(CollectionWithIDs):
                     detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
                             grph.add_node(auth1, **detailedInfo.copy())
+                            if citeProfile:
+                                grph.nodes[auth1]['citeProfile'] = {}
                         elif count:
                             grph.nodes[auth1]['count'] += 1
-                        if citeProfile:
+                    if citeProfile:
+                        for auth1 in set(authsList):
                             for c in citesLst:
                                 try:
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 5cc61877afaf03ebace15edfb3c5a7944b2ddfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 052/100] fix: citations without the requested node type are
 left out of citation networks instead of raising

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9b82fc6..01322db 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1760,7 +1760,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From 4400d049b476c8f31b84d400b9a44155b9f188bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 053/100] fix: citation networks are reversed by recordToCite
 for every node type, and can be unweighted for every node type

---
 metaknowledge/recordCollection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 01322db..b879d20 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1666,8 +1666,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1679,9 +1681,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From 890edc02b2ba4285f0589fabacf6c99ccb3b93e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 054/100] fix: citation networks do not join the citations of a
 record whose own citation is empty

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index b879d20..0a3766d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1645,7 +1645,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         idList.append(nID)
 
     addedEdges = []
-    if hID:
+    if headNd is not None:
         for i in range(len(idList)):
             nID = idList[i]
             if nodeType == 'full' or nodeType == 'original':
-- 
2.43.0


From 7d7666f6948f29b16d156875025f727bb4d4264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 055/100] fix: node counts of citation networks do not depend
 on the order of the records

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 0a3766d..2cce798 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1624,8 +1624,8 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if hID not in grph:
             nodeName, nodeDat = makeNodeTuple(headNd, hID, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR)
             grph.add_node(nodeName, **nodeDat)
-    else:
-        hID = None
+        elif count:
+            grph.nodes[hID]['count'] += 1
     idList = []
     yearList = []
     for n in nds:
-- 
2.43.0


From 3ef4335bb0f3f449f501071b67a0b4f44f8e2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 056/100] fix: core information of citation networks can be
 made from tags whose values are not strings

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2cce798..2e1c097 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1723,7 +1723,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                             if isinstance(tagVal, str):
                                 infoVals.append(tagVal.replace(',',''))
                             elif isinstance(tagVal, list):
-                                infoVals.append(tagVal[0].replace(',',''))
+                                infoVals.append(str(tagVal[0]).replace(',',''))
                             else:
                                 pass
                         d['info'] = ', '.join(infoVals)
@@ -1731,7 +1731,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         for tag in coreValues:
                             v = R.get(tag, None)
                             if isinstance(v, list):
-                                d[tag] = '|'.join(sorted(v))
+                                d[tag] = '|'.join(sorted(str(val) for val in v))
                             else:
                                 d[tag] = v
                     d['inCore'] = True
-- 
2.43.0


From 0324236ecbb9686902fe61061d3e8f7e338f1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 057/100] fix: localCitesOf accepts records and citation
 strings

---
 metaknowledge/recordCollection.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2e1c097..f0e41d5 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1471,19 +1471,13 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
-            try:
-                recCite = self.getID(rec)
-            except ValueError:
-                try:
-                    recCite = Citation(rec)
-                except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+        elif isinstance(rec, str):
+            recCite = self.getID(rec)
+            if recCite is None:
+                #Not the ID of a Record so it is a citation string
+                recCite = Citation(rec)
             else:
-                if recCite is None:
-                    return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-                else:
-                    recCite = recCite.createCitation()
+                recCite = recCite.createCitation()
         elif isinstance(rec, Citation):
             recCite = rec
         else:
-- 
2.43.0


From 7317a03d7b462d351434162630e8d91240e2e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 058/100] fix: citeFilter does not give up on a record when one
 of its citations lacks the field

---
 metaknowledge/recordCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f0e41d5..4ae2c15 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1550,7 +1550,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1566,7 +1566,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1574,7 +1574,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1582,7 +1582,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From ece1752cacd10ba9c59accd3655e5d8fb7dd4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 059/100] fix: citeFilter matches every citation with a year
 when the key string is blank

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4ae2c15..8aa4fbb 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1555,7 +1555,7 @@ class RecordCollection(CollectionWithIDs):
                 elif field == 'year':
                     for cite in R.get('citations'):
                         try:
-                            if int(keyString) == cite.year:
+                            if cite.year is not None and (keyString == '' or int(keyString) == cite.year):
                                 retRecs.append(R)
                                 break
                         except AttributeError:
-- 
2.43.0


From e447971238bd4ac9c10dce3fd690aa4edf55f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 060/100] fix: localCiteStats works for records and citations
 of other sources

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8aa4fbb..e04f6e4 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1428,13 +1428,13 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
-- 
2.43.0


From a014390ccd6175b1c22831009d9d552d2dfe89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 061/100] fix: rpys accepts a single year to drop

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index e04f6e4..3bf8b30 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -805,6 +805,8 @@ class RecordCollection(CollectionWithIDs):
 
         if dropYears is None:
             dropYears = set()
+        elif isinstance(dropYears, int):
+            dropYears = {dropYears}
         yearCounts = {}
         retDict = {'year' : [], 'count' : [], 'abs-deviation' : [], 'rank' : []}
 
-- 
2.43.0


From 40410a16951b5daa25476cccece847c431f14ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 062/100] fix: rpys uses its default bounds for years outside
 of them and works when nothing is cited

---
 metaknowledge/recordCollection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3bf8b30..5d33d8c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -834,14 +834,13 @@ class RecordCollection(CollectionWithIDs):
                 else:
                     yearCounts[cYear] = 1
 
+        if len(yearCounts) == 0 and (minYear is None or maxYear is None):
+            #Nothing is cited so there is nothing between the missing bound and the other
+            return retDict
         if minYear is None:
-            smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            minYear = max(1000, min(yearCounts))
         if maxYear is None:
-            biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = min(2100, max(yearCounts))
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From f5beba1dc345b7c10179a3dcfc45ce88e2894bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 063/100] fix: diffusionGraph weighs the parallel edges made by
 labelEdgesBy

---
 metaknowledge/diffusion.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..d07c1a4 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,13 +114,9 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph.edges[sVal, val, edgeVal]['weight'] += 1
                                             else:
-                                                attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, key = edgeVal, weight = 1)
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
-- 
2.43.0


From 1fd2e9d9d775d94da0c5a7a571c7fa2b6f7f77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 064/100] fix: diffusionGraph uses the citations of all kinds
 of records

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index d07c1a4..cac9c03 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -106,7 +106,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
                         workingGraph.nodes[val]["target"] = True
-                    targetCites = Rt.get('CR')
+                    targetCites = Rt.get('citations')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
                             for sVal in Rs:
-- 
2.43.0


From e8ae34d14642aca779b5fc0811569ce81ae1f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 065/100] fix: diffusionCount counts the source collection with
 the same options as the target

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index cac9c03..0f42706 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -266,7 +266,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, _ProgBar = PBar, extraMapping = extraMapping)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
-- 
2.43.0


From 589f27fc8fa2c4adcabab8a2fc9abbf8371e500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 066/100] fix: the table of diffusionCount has the source
 counts of each extra value

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 0f42706..8035eac 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -323,7 +323,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From 808baff63b775e07554894bda191f23ce403498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 067/100] fix: the table of diffusionCount can hold records
 without authors

---
 metaknowledge/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 8035eac..c8419fb 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -291,7 +291,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -303,7 +303,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
-- 
2.43.0


From 4620363a700c4695aadda3290b23c780199be20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 068/100] fix: the columns of the table of diffusionCount have
 the same length when the extra value is a tag of the records

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index c8419fb..bd1d0ed 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -281,7 +281,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t != extraValue]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
-- 
2.43.0


From c3625423560a21d4f51adeeb41bc3f01ae9f8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 069/100] fix: diffusionAddCountsFromSource does not empty the
 counts it is given

---
 metaknowledge/diffusion.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index bd1d0ed..85377be 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -404,14 +404,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         try:
             if not isinstance(countsDict.keys().__iter__().__next__(), str):
                 PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
-                countsDict = newCountsDict
+                countsDict = {str(k) : v for k, v in countsDict.items()}
         except StopIteration:
             pass
         count = 0
-- 
2.43.0


From c00c1719c525bd7bc94123659f4b160ca9ddf25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 070/100] fix: writeEdgeList works without the attributes of
 the edges

---
 metaknowledge/graphHelpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..005a1a0 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -253,8 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
-                eDict['Source'] = e[0]
-                eDict['Target'] = e[1]
+                eDict = {'Source' : e[0], 'Target' : e[1]}
                 try:
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
-- 
2.43.0


From 3a007117b237f3dc9802d1917fb2917ff17adaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 071/100] fix: allSameAttribute works and notices missing
 attributes

---
 metaknowledge/graphHelpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 005a1a0..115339f 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -238,6 +238,9 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
                 eDict = e[2].copy()
+                if allSameAttribute and len(eDict) != len(csvHeader) - 2:
+                    f.close()
+                    raise ValueError("Some edges in The graph do not have the same attributes")
                 eDict['Source'] = e[0]
                 eDict['Target'] = e[1]
                 try:
@@ -304,7 +307,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
@@ -326,6 +329,9 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             if count % 100 == 0:
                 PBar.updateVal(count / nMax * .90 + .10, "Writing node: '{}'".format(n[0]))
             nDict = n[1].copy()
+            if allSameAttribute and len(nDict) != len(csvHeader) - 1:
+                f.close()
+                raise ValueError("Some nodes in the graph do not have the same attributes")
             nDict['ID'] = n[0]
             try:
                 outFile.writerow(nDict)
-- 
2.43.0


From 0034ea646340efcc67168f7b1b493344e9484f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 072/100] fix: readGraph keeps the line breaks of the values as
 they are

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 115339f..19b6b87 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
-- 
2.43.0


From 7332117f23b7f04dc763c44a5298972dda50bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 073/100] fix: writeTnetFile writes the attribute named by
 timeString

---
 metaknowledge/graphHelpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 19b6b87..f29ed72 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -422,11 +422,16 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
             raise RCValueError("Too few modes of '{}' found in the network. There must be exactly 2 modes.".format(modeNameString))
         with open(name, 'w', encoding = 'utf-8') as f:
             edgesCaller = {'data' : True}
-            if timeString is not None:
+            if timeString is not None and grph.is_multigraph():
                 edgesCaller['keys'] = True
             for *nodes, eDict in grph.edges(**edgesCaller):
                 if timeString is not None:
-                    n1, n2, keyVal = nodes
+                    n1, n2 = nodes[:2]
+                    #the edges of multigraphs can have the time as their key
+                    if timeString not in eDict and len(nodes) > 2:
+                        keyVal = nodes[2]
+                    else:
+                        keyVal = eDict[timeString]
                 else:
                     n1, n2 = nodes
                 count += 1
-- 
2.43.0


From 099772c8d59db775dc2f5942f87a5ace4fef3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 074/100] fix: dropEdges drops the right one of parallel edges

---
 metaknowledge/graphHelpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index f29ed72..8797b3e 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -551,10 +551,14 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
             for e in slps:
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
+        if grph.is_multigraph():
+            edgesCaller = {'data' : True, 'keys' : True}
+        else:
+            edgesCaller = {'data' : True}
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            for e in grph.edges(**edgesCaller):
                 try:
-                    val = e[2][parameterName]
+                    val = e[-1][parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -566,7 +570,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(e[:-1])
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From 4dc47c35f4f3db2795f6443e833d802ba477e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 075/100] fix: dropNodesByDegree counts both directions of the
 edges of directed graphs

---
 metaknowledge/graphHelpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 8797b3e..5a50d22 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -622,8 +622,11 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                 if count % 10000 == 0:
                     PBar.updateVal(count/ total, str(count) + " nodes analysed and " + str(len(badNodes)) + " nodes dropped")
             val = 0
+            edges = list(grph.edges(n, data = True))
+            if grph.is_directed():
+                edges += [e for e in grph.in_edges(n, data = True) if e[0] != n]
             if useWeight:
-                for e in grph.edges(n, data = True):
+                for e in edges:
                     try:
                         val += e[2][parameterName]
                     except KeyError:
@@ -632,7 +635,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                         else:
                             val += 1
             else:
-                val = len(grph.edges(n))
+                val = len(edges)
             if val < minDegree or val > maxDegree:
                 badNodes.append(n)
         if PBar:
-- 
2.43.0


From fd08519199a2b4daec20f2f457e9fc2e263726a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 076/100] fix: mergeGraphs keeps the attributes of the target
 when a count or weight is missing and can leave counts and weights alone

---
 metaknowledge/graphHelpers.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 5a50d22..3c04223 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -730,23 +730,17 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     """
 
     for addedNode, attribs in addedGraph.nodes(data = True):
-        if incrementedNodeVal:
-            try:
-                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
-            except KeyError:
-                targetGraph.add_node(addedNode, **attribs)
-        else:
-            if not targetGraph.has_node(addedNode):
-                targetGraph.add_node(addedNode, **attribs)
+        if not targetGraph.has_node(addedNode):
+            targetGraph.add_node(addedNode, **attribs)
+        elif incrementedNodeVal in attribs:
+            targetAttribs = targetGraph.nodes[addedNode]
+            targetAttribs[incrementedNodeVal] = targetAttribs.get(incrementedNodeVal, 0) + attribs[incrementedNodeVal]
     for edgeNode1, edgeNode2, attribs in addedGraph.edges(data = True):
-        if incrementedEdgeVal:
-            try:
-                targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
-            except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
-        else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+        if not targetGraph.has_edge(edgeNode1, edgeNode2):
+            targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+        elif incrementedEdgeVal in attribs:
+            targetAttribs = targetGraph.edges[edgeNode1, edgeNode2]
+            targetAttribs[incrementedEdgeVal] = targetAttribs.get(incrementedEdgeVal, 0) + attribs[incrementedEdgeVal]
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
     """Returns a string or list containing statistics about the graph _G_.
-- 
2.43.0


From fec995bd16681fcb710b17173b1b9dc3746320fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 077/100] fix: networkCoInvestigator counts each naming of an
 investigator once

---
 metaknowledge/grantCollection.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index d65531c..dbfc21b 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -197,7 +197,7 @@ class GrantCollection(CollectionWithIDs):
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 if len(investList) > 1:
-                    for i, invest1 in enumerate(investList):
+                    for invest1 in investList:
                         if invest1[0] not in grph:
                             if count:
                                 grph.add_node(invest1[0], count = 1, field = invest1[1])
@@ -205,14 +205,8 @@ class GrantCollection(CollectionWithIDs):
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
                             grph.nodes[invest1[0]]['count'] += 1
+                    for i, invest1 in enumerate(investList):
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From cd0218f8c26798de4de765f7b69a3136c05048ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 078/100] fix: the investigators and institutions of an NSF
 grant are not given twice when their tag is asked for

---
 metaknowledge/grants/nsfGrant.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 8729241..b50d4d4 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -29,11 +29,13 @@ class NSFGrant(Grant):
         > A list of all the found investigator's names
         """
         if tags is None:
-            tags = ['Investigator']
+            tags = []
         elif isinstance(tags, str):
-            tags = ['Investigator', tags]
+            tags = [tags]
         else:
-            tags = list(tags) + ['Investigator']
+            tags = list(tags)
+        if 'Investigator' not in tags:
+            tags.append('Investigator')
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -46,11 +48,13 @@ class NSFGrant(Grant):
         > A list with 1 entry the name of the institution
         """
         if tags is None:
-            tags = ['Institution']
+            tags = []
         elif isinstance(tags, str):
-            tags = ['Institution', tags]
+            tags = [tags]
         else:
-            tags = list(tags) + ['Institution']
+            tags = list(tags)
+        if 'Institution' not in tags:
+            tags.append('Institution')
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From 0aefcda568c3b72679f05f4c9493540572620647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 079/100] fix: nameStringGender raises its exception

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..db0fdf7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -60,7 +60,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From 0d7d8446504a56ab5253ea90149871b6edc48920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 080/100] fix: the fractions of genders are 0 without authors

---
 metaknowledge/mkRecord.py         | 3 ++-
 metaknowledge/recordCollection.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index ad31dee..b7c69b7 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -686,7 +686,8 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             if fractionsMode:
                 tot = sum(countsList)
                 for i in range(3):
-                    countsList.append(countsList.pop(0) / tot)
+                    n = countsList.pop(0)
+                    countsList.append(n / tot if tot else 0)
             if _countsTuple:
                 return tuple(countsList)
             else:
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5d33d8c..bc8dc99 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -897,7 +897,7 @@ class RecordCollection(CollectionWithIDs):
             femaleCount += f
             unknownCount += u
         if asFractions:
-            tot = maleCount + femaleCount + unknownCount
+            tot = max(maleCount + femaleCount + unknownCount, 1)
             return {'Male' : maleCount / tot, 'Female' : femaleCount / tot, 'Unknown' : unknownCount / tot}
         return {'Male' : maleCount, 'Female' : femaleCount, 'Unknown' : unknownCount}
 
-- 
2.43.0


From 54cf91866cccb816f6a4e615a1d055d77ec3f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 081/100] fix: updatej9DB keeps all names of an abbreviation

---
 metaknowledge/journalAbbreviations/backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..69cfea3 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -89,7 +89,8 @@ def _getCurrentj9Dict():
         d = _getDict(urllib.request.urlopen(url))
         if len(d) == 0:
             raise RuntimeError("Parsing failed, this is could require an update of the parser.")
-        j9Dict.update(d)
+        for k, v in d.items():
+            j9Dict.setdefault(k, []).extend(v)
     return j9Dict
 
 def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
@@ -119,9 +120,8 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                 raise urllib.error.URLError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
-                    for jName in v:
-                        if jName not in j9Dict[k]:
-                            j9Dict[k] += '|' + jName
+                    names = db[k].decode('utf-8').split('|')
+                    db[k] = '|'.join(names + [jName for jName in v if jName not in names])
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
-- 
2.43.0


From 1cd437110529489a9f2e5b65572b55081d535491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 082/100] fix: getj9dict downloads the missing database it was
 asked for

---
 metaknowledge/journalAbbreviations/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 69cfea3..c06212e 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -155,7 +155,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
-- 
2.43.0


From 7e43d943f2a379ae25af15fcd2ab926a25251133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 083/100] fix: getj9dict does not fill a missing manual
 database with downloaded names

---
 metaknowledge/journalAbbreviations/backend.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index c06212e..dfd4e4c 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -157,18 +157,14 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
     except JournalDataBaseError:
         updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
-    try:
-        if returnDict == 'both' or returnDict == 'manual':
-            if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
-                with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
-                    for k, v in db.items():
-                        retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
-            else:
-                if returnDict == 'manual':
-                    raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
-    except JournalDataBaseError:
-        updatej9DB(dbname = manualDB)
-        return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    if returnDict == 'both' or returnDict == 'manual':
+        if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
+            with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
+                for k, v in db.items():
+                    retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
+        else:
+            if returnDict == 'manual':
+                raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
     return retDict
 
 def addToDB(abbr = None, dbname = manualDBname):
-- 
2.43.0


From 9acb4e87a4f43ba6bdafa9f0f57454893349dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 084/100] fix: journals added or excluded with a citation are
 known at once

---
 metaknowledge/citation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index cda94ec..4309016 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -360,11 +360,12 @@ class Citation(collections.abc.Hashable):
                 d = {self.journal : self.journal}
             else:
                 d = {self.journal : manualName}
-            addToDB(abbr = d, dbname = manualDB)
-        except KeyError:
+        except AttributeError:
             raise KeyError("This citation does not have a journal field.")
         else:
-            abbrevDict.update(d)
+            addToDB(abbr = d, dbname = manualDB)
+            if abbrevDict is not None:
+                abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
-- 
2.43.0


From fe03365eceab0f03177a5ed0b311378a1e5ad001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:05 +0000
Subject: [PATCH 085/100] fix: expandedCore works for records without authors
 and with self loops, and joins the authors without weights

---
 metaknowledge/recordCollection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index bc8dc99..abd85f6 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1788,7 +1788,7 @@ def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites)
 def expandRecs(G, RecCollect, nodeType, weighted):
     """Expand all the citations from _RecCollect_"""
     for Rec in RecCollect:
-        fullCiteList = [makeID(c, nodeType) for c in Rec.createCitation(multiCite = True)]
+        fullCiteList = [makeID(c, nodeType) for c in Rec.createCitation(multiCite = True) if nodeType == "full" or getattr(c, nodeType, None)]
         if len(fullCiteList) > 1:
             for i, citeID1 in enumerate(fullCiteList):
                 if citeID1 in G:
@@ -1804,7 +1804,9 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                                 G.edges[citeID1, citeID2]['weight'] += 1
                             except KeyError:
                                 G.add_edge(citeID1, citeID2, weight = 1)
-                        for e1, e2, data in G.edges(citeID1, data = True):
+                        else:
+                            G.add_edge(citeID1, citeID2)
+                        for e1, e2, data in list(G.edges(citeID1, data = True)):
                             G.add_edge(citeID2, e2, **data)
 
 
-- 
2.43.0


From c12023949d8800e34ab60d0168da0651decf44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:55 +0000
Subject: [PATCH 086/100] fix: the command line tool marks journals to be
 skipped in the chosen database

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..b7f1000 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -200,7 +200,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB = dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From 57dbeaa2ff3dcf76a3e54f945b29f87f6f140629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:55 +0000
Subject: [PATCH 087/100] fix: the command line tool returns to its menu after
 the python console

---
 metaknowledge/bin/metaknowledgeCLI.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b7f1000..47e5bb6 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -62,6 +62,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
             else:
                 bannerMsg += '.'
         code.interact(local = globals(), banner = bannerMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
         return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
-- 
2.43.0


From 3b902e942ba9d6f241c2a770098f80f833821b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:55 +0000
Subject: [PATCH 088/100] fix: the command line tool asks again for a blank
 file name with a suffix

---
 metaknowledge/bin/metaknowledgeCLI.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 47e5bb6..293dfb2 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -70,11 +70,12 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
 def getOutputName(clargs, suffix, prompt = "What do you wish to call the output file? ", errorMsg = 'That is not a valid file name.', checking = True):
     if clargs.name:
         return clargs.name + suffix
-    s  = input(prompt) + suffix
+    s  = input(prompt)
     if len(s) == 0:
         print(errorMsg)
-        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg)
+        return getOutputName(clargs, suffix, prompt = prompt, errorMsg = errorMsg, checking = checking)
     else:
+        s += suffix
         if os.path.lexists(s) and checking:
             overWrite = yesorNo("{} already exists overwrite (y/n)? ".format(s))
             if overWrite:
-- 
2.43.0


From 3467f49c944b1d9560ea754bdfdc4602db80b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 089/100] fix: the command line tool does not ask about
 citations without a journal

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 293dfb2..45effbf 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -190,7 +190,7 @@ def getWhatToDo(clargs, inRC):
         try:
             for R in inRC:
                 for c in R.get('citations', []):
-                    if not hasattr(c, 'journal'):
+                    if getattr(c, 'journal', None) is None:
                         print("{} does not have a journal field".format(c))
                     elif c.isJournal(manualDB= dbName, returnDict ='both'):
                         print("the journal field of {} is in the database".format(c.journal))
-- 
2.43.0


From b07477e7d7b75cfe08d843c1f2e6d42ad0d1ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 090/100] fix: the command line tool writes graphml when an
 attribute is unknown

---
 metaknowledge/bin/metaknowledgeCLI.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index 45effbf..63bc1f2 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -330,6 +330,12 @@ def  outputNetwork(clargs, grph):
         metaknowledge.writeNodeAttributeFile(grph, outName)
     else:
         outName = getOutputName(clargs, '.graphml')
+        #graphml has no None, unknown values are left out
+        grph = grph.copy()
+        attributes = [d for n, d in grph.nodes(data = True)] + [d for e1, e2, d in grph.edges(data = True)]
+        for d in attributes:
+            for k in [k for k, v in d.items() if v is None]:
+                del d[k]
         nx.write_graphml(grph, outName)
 
 def mkCLI():
-- 
2.43.0


From 31875d94d056af71f9e9cf870f0c8d4b42a9239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:23 +0000
Subject: [PATCH 091/100] fix: glimpse works on a terminal too low for a row

---
 metaknowledge/RCglimpse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index cea6180..7314fad 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -31,6 +31,8 @@ def _glimpse(RC, *tags, compact = False):
         maxRows = tRows - 7
     else:
         maxRows = tRows - 6
+    #A terminal of 6 lines may have no room for a row
+    maxRows = max(maxRows, 0)
     for name, tag in targetTags.items():
         glimpseVals[name] = RC.rankedSeries(tag, giveCounts = False, giveRanks = True, pandasMode = False)
     return makeHeader(RC, tColumns, targetTags, compact) + makeTable(glimpseVals, maxRows, tColumns, compact)
-- 
2.43.0


From 2a30ddc159c745cbba2e959343c7449e19156a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 092/100] fix: glimpse cuts headings that are wider than their
 columns

---
 metaknowledge/RCglimpse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index 7314fad..67cae14 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -60,13 +60,13 @@ def makeTable(values, height, width, compact):
         cRemainder = width % len(values) - 1
         for title, rows in values.items():
             if cRemainder > 0:
-                heading = "{1:-^{0}}".format(cWidth + 1, title)
+                heading = "{1:-^{0}}".format(cWidth + 1, title[:cWidth + 1])
                 cRemainder -= 1
             elif cRemainder < 0:
-                heading = "{1:-^{0}}".format(cWidth - 1, title)
+                heading = "{1:-^{0}}".format(cWidth - 1, title[:cWidth - 1])
                 cRemainder += 1
             else:
-                heading = "{1:-^{0}}".format(cWidth, title)
+                heading = "{1:-^{0}}".format(cWidth, title[:cWidth])
             hWidth = len(heading)
             lines[0].append(heading)
             if len(rows) < height:
-- 
2.43.0


From aa51209814ae90dfed30bf4e600a25b400f07ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:54 +0000
Subject: [PATCH 093/100] fix: notebooks made of markdown files are valid
 whatever characters they hold and keep an unfinished last line

---
 metaknowledge/bin/metaknowledgeMdToNb.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeMdToNb.py b/metaknowledge/bin/metaknowledgeMdToNb.py
index 7f5616b..5533337 100644
--- a/metaknowledge/bin/metaknowledgeMdToNb.py
+++ b/metaknowledge/bin/metaknowledgeMdToNb.py
@@ -1,5 +1,6 @@
 #Written by Reid McIlroy-Young for Dr. John McLevey, University of Waterloo 2015
 import argparse
+import json
 import re
 import os.path
 import subprocess
@@ -103,9 +104,10 @@ def convert(file):
 
 def stringPreprossesing(s):
     s = s.lstrip('\n')
-    s = s.replace(r'"', r'\"')
-    s = s.replace('\n', '\\n",\n     "')[:-11]
-    return s
+    if s.endswith('\n'):
+        s = s[:-1]
+    #json escapes the quotes, backslashes and control characters
+    return '\\n",\n     "'.join(json.dumps(line, ensure_ascii = False)[1:-1] for line in s.split('\n'))
 
 
 def writeMDcell(s):
-- 
2.43.0


From c6deea529938408fdc8854669ddd8726d2831ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 094/100] fix: the density plot works with current versions of
 matplotlib

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 8576ff4..d28fdfb 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -110,7 +110,7 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
         raise TypeError("{} is not a valid input.".format(type(layout)))
     fig = plt.figure()
     #axis = fig.add_subplot(111)
-    axis = fig.gca(projection='3d')
+    axis = fig.add_subplot(projection='3d')
     if overlay:
         nx.draw_networkx(G, pos = layout, ax = axis, node_size = nodeSize, with_labels = False, edgelist = [])
     grid = ndi.gaussian_filter(grid, (blurringFactor * axisSamples, blurringFactor * axisSamples))
-- 
2.43.0


From a03516dba694ac4d2e48c9dc54d754361532fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 095/100] fix: the density plot does not fold nodes left of or
 below the origin to the other side

---
 metaknowledge/contour/plotting.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index d28fdfb..03d1004 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -92,22 +92,20 @@ def graphDensityContourPlot(G, iters = 50, layout = None, layoutScaleFactor = 1,
     if not isinstance(G, nx.classes.digraph.DiGraph) and not isinstance(G, nx.classes.graph.Graph):
         raise TypeError("{} is not a valid input.".format(type(G)))
     if layout is None:
-        layout = nx.spring_layout(G, scale = axisSamples - 1, iterations = iters)
-        grid = np.zeros( [axisSamples, axisSamples],dtype=np.float32)
-        for v in layout.values():
-            x, y = tuple(int(x) for x in v.round(0))
-            grid[y][x] += 1
+        layout = nx.spring_layout(G, iterations = iters)
+        layoutScaleFactor = 1
     elif isinstance(layout, dict):
         layout = layout.copy()
-        grid = np.zeros([axisSamples, axisSamples],dtype=np.float32)
-        multFactor = (axisSamples - 1) / layoutScaleFactor
-        for k in layout.keys():
-            tmpPos = layout[k] * multFactor
-            layout[k] = tmpPos
-            x, y = tuple(int(x) for x in tmpPos.round(0))
-            grid[y][x] += 1
     else:
         raise TypeError("{} is not a valid input.".format(type(layout)))
+    #The square centered at the origin that the layout fits in is moved and scaled to the grid
+    grid = np.zeros([axisSamples, axisSamples],dtype=np.float32)
+    multFactor = (axisSamples - 1) / (2 * layoutScaleFactor)
+    for k in layout.keys():
+        tmpPos = (layout[k] + layoutScaleFactor) * multFactor
+        layout[k] = tmpPos
+        x, y = tuple(int(x) for x in tmpPos.round(0))
+        grid[y][x] += 1
     fig = plt.figure()
     #axis = fig.add_subplot(111)
     axis = fig.add_subplot(projection='3d')
-- 
2.43.0


From 59d82044459be22ab9c458a4d4ae71e6404a111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 096/100] fix: quickVisual draws empty graphs

---
 metaknowledge/contour/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 03d1004..0439ba7 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -19,7 +19,7 @@ def quickVisual(G, showLabel = False):
     ax = f.add_subplot(1,1,1)
     ndTypes = []
     ndColours = []
-    layout = nx.spring_layout(G, k = 4 / math.sqrt(len(G.nodes())))
+    layout = nx.spring_layout(G, k = 4 / math.sqrt(max(len(G.nodes()), 1)))
     for nd in G.nodes(data = True):
         if 'type' in nd[1]:
             if nd[1]['type'] not in ndTypes:
-- 
2.43.0


From a882d4798a414ec696cce135e72030274f60018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 097/100] fix: quickVisual tells when some nodes do not have a
 type in any order of the nodes

---
 metaknowledge/contour/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/contour/plotting.py b/metaknowledge/contour/plotting.py
index 0439ba7..834437b 100644
--- a/metaknowledge/contour/plotting.py
+++ b/metaknowledge/contour/plotting.py
@@ -25,8 +25,8 @@ def quickVisual(G, showLabel = False):
             if nd[1]['type'] not in ndTypes:
                 ndTypes.append(nd[1]['type'])
             ndColours.append(colours[ndTypes.index(nd[1]['type']) % len(colours)])
-        elif len(ndColours) > 1:
-            raise RuntimeError("Some nodes do not have a type")
+    if 0 < len(ndColours) < len(G.nodes()):
+        raise RuntimeError("Some nodes do not have a type")
     if len(ndColours) < 1:
         nx.draw_networkx_nodes(G, pos = layout, node_color = colours[0], node_shape = '8', node_size = 100, ax = ax)
     else:
-- 
2.43.0


From 165ce88e10eaa7cd72af5ed2242e1e7abb0e5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:12 +0000
Subject: [PATCH 098/100] fix: glimpse keeps its columns aligned for ranks of
 three digits and very narrow columns

---
 metaknowledge/RCglimpse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index 67cae14..82fff6e 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -86,8 +86,11 @@ def makeTable(values, height, width, compact):
 
 def prepEntry(maxLength, valString, rank):
     valString = str(valString)
-    if len(valString) <= maxLength - 2:
-        valString = valString.rjust(maxLength - 2, ' ')
+    rankString = "{:<2.0f}".format(rank)
+    #Ranks can have more than two digits and columns can be very narrow
+    valLength = max(maxLength - len(rankString), 0)
+    if len(valString) <= valLength:
+        valString = valString.rjust(valLength, ' ')
     else:
-        valString = "{}.".format(valString[:maxLength - 3])
-    return "{:<2.0f}{}".format(rank, valString)
+        valString = "{}.".format(valString[:max(valLength - 1, 0)])
+    return (rankString + valString)[:maxLength]
-- 
2.43.0


From 62f1bb9c550ebfc49293c16ce01db9f4c677415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:12 +0000
Subject: [PATCH 099/100] fix: graphStats gives counts of a million and more
 exactly

---
 metaknowledge/graphHelpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3c04223..e8f05bd 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -790,33 +790,33 @@ def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'tr
     if 'nodes' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} nodes".format(len(G.nodes())))
+                stsData.append("{} nodes".format(len(G.nodes())))
             else:
-                stsData.append("Nodes: {:G}".format(len(G.nodes())))
+                stsData.append("Nodes: {}".format(len(G.nodes())))
         else:
             stsData['nodes'] = len(G.nodes())
     if 'edges' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} edges".format(len(G.edges())))
+                stsData.append("{} edges".format(len(G.edges())))
             else:
-                stsData.append("Edges: {:G}".format(len(G.edges())))
+                stsData.append("Edges: {}".format(len(G.edges())))
         else:
             stsData['edges'] = len(G.edges())
     if 'isolates' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} isolates".format(len(list(nx.isolates(G)))))
+                stsData.append("{} isolates".format(len(list(nx.isolates(G)))))
             else:
-                stsData.append("Isolates: {:G}".format(len(list(nx.isolates(G)))))
+                stsData.append("Isolates: {}".format(len(list(nx.isolates(G)))))
         else:
             stsData['isolates'] = len(list(nx.isolates(G)))
     if 'loops' in stats:
         if makeString:
             if sentenceString:
-                stsData.append("{:G} self loops".format(len(list(nx.selfloop_edges(G)))))
+                stsData.append("{} self loops".format(len(list(nx.selfloop_edges(G)))))
             else:
-                stsData.append("Self loops: {:G}".format(len(list(nx.selfloop_edges(G)))))
+                stsData.append("Self loops: {}".format(len(list(nx.selfloop_edges(G)))))
         else:
             stsData['loops'] = len(list(nx.selfloop_edges(G)))
     if 'density' in stats:
-- 
2.43.0


From a2446cb4ea379d243e00578b9d92464b9d9fdb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:04 +0000
Subject: [PATCH 100/100] fix: Medline grants of different agencies without a
 number are different grants

---
 metaknowledge/grants/medlineGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/medlineGrant.py b/metaknowledge/grants/medlineGrant.py
index 98f4ade..c140bbf 100644
--- a/metaknowledge/grants/medlineGrant.py
+++ b/metaknowledge/grants/medlineGrant.py
@@ -35,7 +35,7 @@ class MedlineGrant(Grant):
                     grantDict['number'] = "{}/{}".format(split.pop(), code)
             else:
                 grantDict['number'] = '/'.join(split)
-        if 'number' in  grantDict:
+        if grantDict.get('number'):
             idValue = "{}/{}-{}".format(grantDict.get('number', ''), grantDict.get('code', ''), grantDict.get('country', ''))
         else:
             idValue  = "{}-{}-{}".format(grantDict.get('code', ''), grantDict.get('agency', ''), grantDict.get('country', ''))
-- 
2.43.0

