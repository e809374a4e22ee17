From f26cb55cf57d62d28392645bca74a04027d657b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 001/151] fix: BCVReferenceToInt must keep chapters over 99 and
 verses over 149 in order (and handle suffixes)

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..861f378 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -714,28 +714,14 @@ class BibleBooksCodes:
         try:
             BBB, C, V = BCVReferenceTuple
             S = ''
-        except:
+        except ValueError: # There must also be a verse suffix
             BBB, C, V, S = BCVReferenceTuple
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BCVReferenceTuple ); halt # Need to finish handling BCVReferenceTuple
         result = self.getReferenceNumber( BBB )
 
-        try:
-            intC = int( C )
-        except ValueError:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(C) ); halt # Need to finish handling C
-        result = result * 100 + intC
-
-        try:
-            intV = int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
-        except ValueError:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
-        result = result * 150 + intV
-
-        try:
-            intS = {'a':0, 'b':1}[S.lower()] if S else 0
-        except ValueError:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(S) ); halt # Need to finish handling S
-        result = result * 10 + intS
+        # NOTE: The multipliers must exceed the highest possible chapter (151) and verse (176) numbers
+        result = result * 1000 + int( C )
+        result = result * 1000 + int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
+        result = result * 100 + (ord( S[0].lower() ) - ord( 'a' ) + 1 if S else 0)
 
         return result
     # end of BibleBooksCodes.BCVReferenceToInt
-- 
2.43.0


From 279c7a215974647f4a194eaa04d465db3e8ef851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 002/151] fix: isValidBCVRef must accept a blank verse in the
 introduction chapter instead of raising ValueError

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..6f82886 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -827,7 +827,7 @@ class BibleVersificationSystem:
         myReferenceString = " (from {!r})".format(referenceString) if referenceString is not None else ''
 
         if BBB in self.__chapterDataDict:
-            if extended and C=='-1': return 0 <= int(V) <= 199 # Don't check the verse number range accurately
+            if extended and C=='-1': return not V or 0 <= int(V) <= 199 # Don't check the verse number range accurately
             if C in self.__chapterDataDict[BBB]:
                 if not V: return True # NOTE: This allows blank verse numbers (as a reference can refer to an entire chapter)
                 if extended and V=='0': return True
-- 
2.43.0


From 3f930857bf8ec2ca554ec40ea019527cce9ea7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 003/151] fix: expandCVRange must start later books at verse
 one, without the suffix of the first verse, and leave out omitted verses

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6f82886..5a3ba71 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -918,13 +918,13 @@ class BibleVersificationSystem:
                 for Cint in range( Cfirst, Clast+1 ):
                     Vlast = self.getNumVerses( BBB, str(Cint) )
                     if Cint==Cfirst: # We're on the first chapter
-                        startVint = V1int
+                        startVint = Vfirst
                         endVint = Vlast
                     else: # It's not the first chapter
                         startVint = 1
                         endVint = Vlast
                     for Vint in range( startVint, endVint+1 ):
-                        if Cint==C1int and Vint==V1int: S = S1
+                        if BBB==BBB1 and Cint==C1int and Vint==V1int: S = S1
                         else: S = ''
                         resultList.append( (BBB, str(Cint), str(Vint), S,) )
                 BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
@@ -940,6 +940,7 @@ class BibleVersificationSystem:
                     else: S = ''
                     resultList.append( (BBB2, str(Cint), str(Vint), S,) )
 
+        resultList = [ref for ref in resultList if not self.isOmittedVerse( ref )] # We only want the valid ones
         vPrint( 'Never', DEBUGGING_THIS_MODULE, startRef, endRef, resultList, haveErrors, haveWarnings )
         return resultList #, haveErrors, haveWarnings
     # end of BibleVersificationSystem.expandCVRange
-- 
2.43.0


From aa21a2a46a1116d0f3a00db47547365932f6f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 004/151] fix: absolute verse numbers must not be shared
 between different organisational systems

---
 .../Reference/BibleOrganisationalSystems.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..b2a51e8 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -532,20 +532,21 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
+    __absoluteVerseDict = None # Made (separately for each system) when first needed
     def __makeAbsoluteVerseList( self ):
         """
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {}
         accumulatedCount = 0
         for BBB in self.getBookList():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                self.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -559,8 +560,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +577,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
-- 
2.43.0


From 110c6cabc6ee6d1b5b9e73fdac0295328e9f3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 005/151] fix: lists of six, eight and nine verses must take
 the last verses from the right match groups

---
 BibleOrgSys/Reference/VerseReferences.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..b9c59e3 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -605,7 +605,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -656,9 +656,9 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -685,10 +685,10 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
-            V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
+            V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
-- 
2.43.0


From 4603d2a568a93ea5e48967d4c6b865dff522a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 006/151] fix: verse keys with an unknown book code must raise
 TypeError, not AttributeError

---
 BibleOrgSys/Reference/VerseReferences.py | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index b9c59e3..a1033fd 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -513,7 +513,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -528,7 +528,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SDADQ", referenceString )
@@ -546,7 +546,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2), SimpleVerseKey(BBB,C3,V3,S3)]
@@ -562,7 +562,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "CCVSD", referenceString )
@@ -584,7 +584,7 @@ class SimpleVersesKey():
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -607,7 +607,7 @@ class SimpleVersesKey():
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -632,7 +632,7 @@ class SimpleVersesKey():
             V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -660,7 +660,7 @@ class SimpleVersesKey():
             V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
             V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -690,7 +690,7 @@ class SimpleVersesKey():
             V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -745,7 +745,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -760,7 +760,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -776,7 +776,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.keyType = '3CV'
@@ -929,7 +929,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             BBB, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
@@ -1006,7 +1006,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
-- 
2.43.0


From a9d704e1f64580b37ffb32d1b486b8f63a478ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 007/151] fix: verse ranges which go backwards must be refused
 instead of looping forever, and must keep the suffix of the first verse

---
 BibleOrgSys/Reference/VerseReferences.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index a1033fd..f8decb8 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -889,9 +889,12 @@ class VerseRangeKey():
             V = V1
             if BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Expanding range from {} to {}…".format( self.rangeStart.getShortText(), self.rangeEnd.getShortText() ) )
-            assert int(V2)>int(V1) or S2!=S1
+            if int(V2)<int(V1) or ( V2==V1 and S2<=S1 ): # Not a proper range
+                if not self.ignoreParseErrors:
+                    logging.error( "VerseRangeKey: range goes backwards in {!r}".format( referenceString ) )
+                return False
             while True:
-                V = str( int(V) + 1 )
+                if V!=V2: V = str( int(V) + 1 )
                 if V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
                     break
@@ -912,12 +915,18 @@ class VerseRangeKey():
             self.rangeStart = SimpleVerseKey( BBB, C1, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C2, V2, S2 )
             self.verseKeysList = []
+            if int(C2)<int(C1) or ( C2==C1 and ( int(V2)<int(V1) or ( V2==V1 and S2<=S1 ) ) ): # Not a proper range
+                if not self.ignoreParseErrors:
+                    logging.error( "VerseRangeKey: range goes backwards in {!r}".format( referenceString ) )
+                return False
             C, V, S = C1, V1, S1
+            if C==C2 and V==V2: self.verseKeysList.append( self.rangeStart ) # Only the suffixes differ
             while True:
                 if C==C2 and V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
                     break
-                self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+                self.verseKeysList.append( SimpleVerseKey( BBB, C, V, S ) )
+                S = '' # Only the first verse has the starting suffix
                 V = str( int(V) + 1 )
                 if int(V)>222:
                     C,V = str( int(C) + 1 ), '1'
-- 
2.43.0


From 9de265506d3da59e26472d44b0ca5d648091f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 008/151] fix: verse keys with different verse indexes are not
 equal

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index f8decb8..372fe82 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -248,7 +248,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
-- 
2.43.0


From 70790631af424387e2b06715f0b8483e62975308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 009/151] fix: comparing Bible entries and extras must not
 raise AttributeError (they have slots, no __dict__)

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f0bc06a..23363d8 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -413,7 +413,7 @@ class InternalBibleExtra:
 
 
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return all( getattr(self,slot)==getattr(other,slot) for slot in self.__slots__ )
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -492,7 +492,7 @@ class InternalBibleExtraList:
 
     def __len__( self ): return len( self.data )
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return all( getattr(self,slot)==getattr(other,slot) for slot in self.__slots__ )
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -645,7 +645,7 @@ class InternalBibleEntry:
         #for someKey, someItem in sorted( other.__dict__.items() ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'other', someKey, repr(someItem) )
         #halt
-        return isinstance( other, self.__class__ ) and self.__dict__ == other.__dict__
+        return isinstance( other, self.__class__ ) and all( getattr(self,slot)==getattr(other,slot) for slot in self.__slots__ )
     def __ne__( self, other ):
         return not self.__eq__( other )
 
-- 
2.43.0


From 9f33e65674b502ac830b0a9f472327ff67c037b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 010/151] fix: adding two entry lists must not change the left
 one

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 23363d8..b9a5efd 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -871,8 +871,9 @@ class InternalBibleEntryList:
         So we can use Python + operator to add lists (e.g., to combine verses)
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
-        self.data.extend( listToAppend )
-        return self
+        result = InternalBibleEntryList( self )
+        result.data.extend( listToAppend )
+        return result
     # end of InternalBibleEntryList.__add__
 
 
-- 
2.43.0


From 7cc70ba18f722fe9d7be2bfe3ae59d50e17ae3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 011/151] fix: contains() must not search one line more than
 maxLines

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index b9a5efd..dd7b16f 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -887,9 +887,8 @@ class InternalBibleEntryList:
         Returns None if no match is found
         """
         for j,entry in enumerate( self.data ):
+            if maxLines is not None and j >= maxLines: break
             if entry.marker == searchMarker: return j
-            if maxLines is not None:
-                if j >= maxLines: break
     # end of InternalBibleEntryList.contains
 # end of class InternalBibleEntryList
 
-- 
2.43.0


From 80aa3aa570485ddad990c6d4ed78ffa41afdfa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 012/151] fix: figure attributes may be blank, and an unquoted
 value ends at the next space

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index dd7b16f..a120391 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -348,9 +348,10 @@ def parseFigureAttributes( workName, BBB:str, C:str, V:str, figureAttributeStrin
                     state = 3
             elif state == 3: # Getting attribute value -- stop at matching quote or space
                 if char == quote \
-                or ( quote==' ' and char.isspace() ):
+                or ( quote=='' and char.isspace() ):
                     assert name
-                    assert value
+                    if not value:
+                        logging.warning( f"{BBB} {C}:{V} figure attribute '{name}' is blank" )
                     resultDict[name] = value
                     name = value = quote = ''
                     state = 0
-- 
2.43.0


From 3f75afe24e000ef7269a31b1dd0af7debf841258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 013/151] fix: paragraph markers inside a line start a new line
 instead of losing the marker

---
 BibleOrgSys/Internals/InternalBibleBook.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b1e1fb6..c09d659 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2559,12 +2559,12 @@ class InternalBibleBook:
                             self.addPriorityError( 96, C, V, _("Marker \\{} shouldn't be inside a line").format( insideMarker ) )
                         thisText = text[ix:iMIndex].rstrip()
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "QQQ10: rstrip" ); halt
-                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, thisText, fixErrors )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, adjText, cleanText, extras, originalText) )
+                        __doAppendEntry( adjustedMarker, originalMarker, thisText, thisText )
                         ix = iMIndex + 1 + len(insideMarker) + len(nextSignificantChar) # Get the start of the next text -- the 1 is for the backslash
-                        adjMarker = BibleOrgSysGlobals.loadedUSFMMarkers.toStandardMarker( insideMarker ) # setup for the next line
+                        originalMarker = insideMarker
+                        adjustedMarker = BibleOrgSysGlobals.loadedUSFMMarkers.toStandardMarker( insideMarker ) # setup for the next line
                 if ix != 0: # We must have separated multiple lines
-                    text = text[ix:]
+                    originalText = text = text[ix:]
             elif self.objectTypeString == 'SwordBibleModule':
                 # First replace fixed strings
                 ixLT = text.find( '<' )
-- 
2.43.0


From 8935e2977a9505582cc461dfaba782d6de618920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 014/151] fix: keep a paragraph or empty line before the first
 verse of a book without a chapter marker

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index c09d659..38d8afa 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2452,13 +2452,13 @@ class InternalBibleBook:
                     else: lastAdjustedMarker = lastOriginalMarker = lastAdjustedText = lastCleanText = lastExtras = lastOriginalText = None
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.BBB, "lastMarker (popped) was", lastAdjustedMarker, lastAdjustedText )
-                    if lastAdjustedMarker in ('p','q1','m','nb'): # The chapter marker should go before this
+                    if lastAdjustedMarker in BibleOrgSysGlobals.USFMParagraphMarkers: # The chapter marker should go before this
                         self._processedLines.append( InternalBibleEntry('c', 'c', '1', '1', None, '1') ) # Write the explicit chapter number
                         self._processedLines.append( InternalBibleEntry(lastAdjustedMarker, lastOriginalMarker, lastAdjustedText, lastCleanText, lastExtras, lastOriginalText) )
                     else: # Assume that the last marker was part of the introduction, so write it first
                         if lastAdjustedMarker not in ( 'ip', ):
                             logging.info( "{} {}:{} Assumed {} was part of intro after {}".format( self.BBB, C, V, lastAdjustedMarker, marker ) )
-                        if lastOriginalText:
+                        if poppedStuff is not None:
                             self._processedLines.append( InternalBibleEntry(lastAdjustedMarker, lastOriginalMarker, lastAdjustedText, lastCleanText, lastExtras, lastOriginalText) )
                         self._processedLines.append( InternalBibleEntry('c', 'c', '1', '1', None, '1') ) # Write the explicit chapter number
 
-- 
2.43.0


From af6ee57882b9bab4925695907cc9e7ce2bb539d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 015/151] fix: keep hyphens and plus signs inside the clean
 text of notes

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 38d8afa..0724f0f 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1098,7 +1098,7 @@ class InternalBibleBook:
                             .replace( '&gt;',  '>' ) \
                             .replace( '&quot;', '"' ) # Undo any replacements above
             for sign in ('- ', '+ '): # Remove common leader characters (and the following space)
-                cleanedNote = cleanedNote.replace( sign, '' )
+                if cleanedNote.startswith( sign ): cleanedNote = cleanedNote[len(sign):]
             # TODO: This is bad having a list like this inside the code!!!
             for marker in ['\\xo*','\\xo ', '\\xt*','\\xt ', '\\xta*','\\xta ', '\\xk*','\\xk ', '\\xq*','\\xq ', '\\xop*','\\xop ', 
                             '\\xot*','\\xot ', '\\xnt*','\\xnt ', '\\xdc*','\\xdc ',
-- 
2.43.0


From bdfba9b4499a027be096137c9f61a5c6a67d332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 016/151] fix: getContextVerseDataRange raises or returns
 instead of looping or failing when the last verse is missing

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0724f0f..5628945 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5273,7 +5273,7 @@ class InternalBibleBook:
                     # We're in a chapter and may have reached the end
                     if startC != endC:
                         numVerses = self.getNumVerses( strC )
-                        if intV > numVerses:
+                        if intV > numVerses and intC < int(endC):
                             intC += 1
                             intV = 0
                             # Try again with the first verse of the next chapter
@@ -5283,7 +5283,6 @@ class InternalBibleBook:
                         else:
                             if not strict:
                                 logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}) for {self.workName} {self.BBB} failed at {strC}:{strV}")
-                                halt
                                 break # return what we've got
                             raise kerr
                     else: # we're only doing one chapter
-- 
2.43.0


From b85141e532ba22dd53c447544ce542847a91a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 017/151] fix: getContextVerseDataRange over several books
 gives the whole range

---
 BibleOrgSys/Internals/InternalBible.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..1e46d08 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2335,9 +2335,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
             if endBBB == startBBB: # most common case
                 return self.books[startBBB].getContextVerseDataRange( startBCVReference, endBCVReference, strict=strict )
             else: # sometimes they can be different books
-                verseEntryList1, contextList1 = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,'999','999'), strict=strict )
-                verseEntryList2, _contextList2 = self.books[startBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
-                return verseEntryList1+verseEntryList2, contextList1
+                def getLastReference( BBB:str ) -> tuple[str,str,str]:
+                    lastC = str( self.books[BBB].getNumChapters() )
+                    return BBB, lastC, str( self.books[BBB].getNumVerses( lastC ) )
+                verseEntryList, contextList = self.books[startBBB].getContextVerseDataRange( startBCVReference, getLastReference(startBBB), strict=strict )
+                loadedBBBs = list( self.books )
+                for BBB in loadedBBBs[loadedBBBs.index(startBBB)+1:loadedBBBs.index(endBBB)]: # any books in between
+                    verseEntryList += self.books[BBB].getContextVerseDataRange( (BBB,'1','1'), getLastReference(BBB), strict=strict )[0]
+                verseEntryList += self.books[endBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )[0]
+                return verseEntryList, contextList
         else:
             logging.warning( f"InternalBible.getContextVerseDataRange( {startBCVReference}, {endBCVReference}, {strict=} ): {self.name} doesn't have {startBBB}{'' if endBBB==startBBB else f' or {endBBB}'}" )
     # end of InternalBible.getContextVerseDataRange
-- 
2.43.0


From fb94c53eeb13498d07ab4c1da100f4d2958f823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 018/151] fix: getContextVerseData copes with a (B,C,V,S) tuple
 as documented

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 5628945..55f843a 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5198,7 +5198,7 @@ class InternalBibleBook:
 
         # else we only need one verse
         if isinstance( BCVReference, tuple ):
-            assert len(BCVReference) == 3
+            assert len(BCVReference) in (3,4)
             C, V = BCVReference[1], BCVReference[2]
         else: # assume it's a SimpleVerseKey or similar
             C,V = BCVReference.getCV()
-- 
2.43.0


From f5d93d3878f0d7a60e1aed6aefbfe0fa415894db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 019/151] fix: getContextVerseDataRange accepts SimpleVerseKey
 references as documented

---
 BibleOrgSys/Internals/InternalBibleBook.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 55f843a..083116d 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5243,10 +5243,10 @@ class InternalBibleBook:
         assert isinstance( verseEntryList, InternalBibleEntryList )
 
         # Now concatenate the verse lists for the following verses
-        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getC()
-        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getV()
-        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getC()
-        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getV()
+        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getChapterNumber()
+        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getVerseNumber()
+        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getChapterNumber()
+        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getVerseNumber()
 
         # dPrint( 'Info', DEBUGGING_THIS_MODULE, f"InternalBibleBook.getContextVerseData concatenating {self.workName} {self.BBB} from {startC}:{startV} to {endC}:{endV} {strict=}" )
         intC = int(startC)
-- 
2.43.0


From 68106e783e6ef2800eacd4eb914e031fe1e436c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 020/151] fix: findText searches marker lists and extras when
 main text is not included

---
 BibleOrgSys/Internals/InternalBible.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 1e46d08..eb3c86e 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2555,21 +2555,19 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
 
                         # Get our text to search
                         origTextToBeSearched = lineEntry.getFullText() if optionsDict['includeExtrasFlag'] else cleanText
-                        if C != '0' and not optionsDict['includeMainTextFlag']:
+                        if C != '-1' and not optionsDict['includeMainTextFlag'] and not ourMarkerList:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
-                                origTextToBeSearched = ''
-                                if origTextToBeSearched != cleanText: # we must have extras -- we need to remove the main text
+                                origTextToBeSearched = '' # we need to remove the main text
+                                if optionsDict['includeExtrasFlag'] and lineEntry.getExtras():
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Got extras" )
-                                    assert optionsDict['includeExtrasFlag']
-                                    origTextToBeSearched = ''
                                     for extra in lineEntry.getExtras():
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "extra", extra )
                                         extraStart = ''
                                         if optionsDict['includeMarkerTextFlag']:
                                             eTypeIndex = BOS_EXTRA_TYPES.index( extra.getType() )
                                             extraStart = '\\{} '.format( BOS_EXTRA_MARKERS[eTypeIndex] )
-                                        origTextToBeSearched += ' ' if origTextToBeSearched else '' + extraStart + extra.getText()
+                                        origTextToBeSearched += ( ' ' if origTextToBeSearched else '' ) + extraStart + extra.getText()
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Now", repr(origTextToBeSearched) )
                         if optionsDict['includeMarkerTextFlag']:
                             origTextToBeSearched = '\\{} {}'.format( marker, origTextToBeSearched )
-- 
2.43.0


From b70f5d2ee50a035f14ed636f786223df5ef20c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 021/151] fix: findText with a marker list handles text before
 the first paragraph of a book

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index eb3c86e..6b0b550 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2530,7 +2530,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 #self.loadBookIfNecessary( BBB )
                 resultSummaryDict['searchedBookList'].append( BBB )
                 C, V = '-1', '-1' # So first/id line starts at -1:0
-                marker = None
+                marker = lastParagraphMarker = None
                 for lineEntry in bookObject:
                     if marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                         lastParagraphMarker = marker
-- 
2.43.0


From 63de4cf3ba2bf5fb8cd77750c4a948ad7e340e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 022/151] fix: caseless findText with a regular expression
 finds capital letters

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 6b0b550..629269d 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2513,7 +2513,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if ourFindText.lower().startswith( 'regex:' ):
             optionsDict['regexFlag'] = True
             ourFindText = ourFindText[6:]
-            compiledFindText = re.compile( ourFindText )
+            compiledFindText = re.compile( ourFindText, re.IGNORECASE if optionsDict['caselessFlag'] else 0 )
         if optionsDict['ignoreDiacriticsFlag']: ourFindText = BibleOrgSysGlobals.removeAccents( ourFindText )
         if optionsDict['caselessFlag']: ourFindText = ourFindText.lower()
         searchLen = len( ourFindText )
-- 
2.43.0


From 7c98582a90c46f428db5f7eb049b4e9a8fa38fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 023/151] fix: SFM file readers ignore a non-SFM line before
 the first SFM line (as logged) instead of taking it as a marker

---
 BibleOrgSys/InputOutput/ESFMFile.py | 4 ++--
 BibleOrgSys/InputOutput/SFMFile.py  | 4 ++--
 BibleOrgSys/InputOutput/USFMFile.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index b03df82..19277ed 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -118,7 +118,7 @@ class ESFMFile:
                     if line and line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
-                                logging.error( "Non-ESFM line in " + esfm_filename + " -- line ignored at #" + str(lineCount) )
+                                logging.error( "Non-ESFM line in " + str(esfm_filename) + " -- line ignored at #" + str(lineCount) )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SFMFile.py: XXZXResult is", result, len(line) )
                             #for x in range(0, min(6,len(line))):
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, x, "'" + str(ord(line[x])) + "'" )
@@ -129,7 +129,7 @@ class ESFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
diff --git a/BibleOrgSys/InputOutput/SFMFile.py b/BibleOrgSys/InputOutput/SFMFile.py
index 09c40b2..067ed0b 100755
--- a/BibleOrgSys/InputOutput/SFMFile.py
+++ b/BibleOrgSys/InputOutput/SFMFile.py
@@ -114,7 +114,7 @@ class SFMLines:
                     if line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
-                                logging.error( "Non-SFM line in " + SFMFilepath + " -- line ignored at #" + str(lineCount) )
+                                logging.error( "Non-SFM line in " + str(SFMFilepath) + " -- line ignored at #" + str(lineCount) )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SFMFile.py: XXZXResult is", result, len(line) )
                             #for x in range(0, min(6,len(line))):
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, x, "'" + str(ord(line[x])) + "'" )
@@ -125,7 +125,7 @@ class SFMLines:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     lineAfterBackslash = line[1:]
                     si1 = lineAfterBackslash.find( ' ' )
diff --git a/BibleOrgSys/InputOutput/USFMFile.py b/BibleOrgSys/InputOutput/USFMFile.py
index fcec6a7..a7e9b6c 100755
--- a/BibleOrgSys/InputOutput/USFMFile.py
+++ b/BibleOrgSys/InputOutput/USFMFile.py
@@ -166,7 +166,7 @@ class USFMFile:
                     if line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
-                                logging.error( "Non-USFM line in " + USFMFilepath + " -- line ignored at #" + str(lineCount) )
+                                logging.error( "Non-USFM line in " + str(USFMFilepath) + " -- line ignored at #" + str(lineCount) )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SFMFile.py: XXZXResult is", result, len(line) )
                             #for x in range(0, min(6,len(line))):
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, x, "'" + str(ord(line[x])) + "'" )
@@ -177,7 +177,7 @@ class USFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
-- 
2.43.0


From a55f379a9f0d450cda263a923efee5ef183db68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 024/151] fix: ESFMFile.read discards lines with only spaces
 instead of returning an empty line without a marker

---
 BibleOrgSys/InputOutput/ESFMFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index 19277ed..5c4183a 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -115,6 +115,7 @@ class ESFMFile:
                     if line[0]=='#': continue # Just discard comment lines
 
                     while line and line[0]==' ': line = line[1:] # Remove leading spaces
+                    if not line: continue # Just discard lines with only spaces
                     if line and line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
-- 
2.43.0


From b92f2ae77f1646f4848d0171c808802d2a229cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 025/151] fix: backupAnyExistingFile leaves the backups alone
 if there is no file to back up

---
 BibleOrgSys/BibleOrgSysGlobals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3f77e2c..6dc6d5a 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -677,6 +677,7 @@ def backupAnyExistingFile( filenameOrFilepath:Path|str, numBackups:int=1, extens
     if debugFlag and DEBUGGING_THIS_MODULE:
         assert not str(filenameOrFilepath).lower().endswith( '.bak' )
 
+    if not os.access( filenameOrFilepath, os.F_OK ): return # Nothing to back up, so don't push the existing backups along
     if extension[0] != '.': extension = '.' + extension
     for n in range( numBackups, 0, -1 ): # e.g., 4,3,2,1
         source = str(filenameOrFilepath) + ('' if n==1 else (extension + ('' if n<3 else str(n-1))))
-- 
2.43.0


From f030f83214500d8083edf5a1f7eb3b7dd4851d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 026/151] fix: fileCompare adjusts ' <verse eid' in both files
 so a file compares equal to itself

---
 BibleOrgSys/BibleOrgSysGlobals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 6dc6d5a..faa6707 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -801,6 +801,7 @@ def fileCompare( filename1, filename2, folder1=None, folder2=None, printFlag=Tru
     with open( filepath1, 'rt', encoding='utf-8' ) as file1:
         for line in file1:
             lineCount += 1
+            line = line.replace(' <verse eid','<verse eid') # TEMP .................................................................
             if lineCount==1 and line[0]==BOM:
                 if printFlag and verbosityLevel > 2:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "      fileCompare: Detected Unicode Byte Order Marker (BOM) in file1" )
-- 
2.43.0


From cb954bb30025464e0a36fc45f0aa90feec395dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 027/151] fix: BibleReferenceList doesn't carry a verse suffix
 over to the next chapter

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..7943022 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -958,7 +958,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     V, S = '', ''
                 elif V and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReference( BBB, C, V, S, self.referenceList )
-                    V = ''
+                    V, S = '', ''
                     if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
                         temp, spaceCount = '', 0
                         status = 4 # We don't know what to expect next
-- 
2.43.0


From 68126373bdee36fa2c8611c739bbad392186c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 028/151] fix: reference parsers handle a final chapter number
 after a separator

---
 BibleOrgSys/Reference/BibleReferences.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 7943022..7db4ba7 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -611,14 +611,22 @@ class BibleSingleReferences( BibleReferenceBase ):
                         logging.error( _("Unexpected {!r} character in Bible reference {!r} when getting book name").format( char, referenceString ) )
                         haveErrors = True
                 continue
-        if status==3: # Got a C but still getting the V hopefully
+        if status==4: # Ended while getting the next chapter number or book name
+            if temp: # but we need a verse number here
+                logging.error( _("Unexpected end of Bible reference {!r} after {!r}").format( referenceString, temp ) )
+                haveErrors = True
+            else: # Must have ended with a separator character
+                logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
+                haveWarnings = True
+                status = 9
+        elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
         if BBB is not None:
             if status==2 and C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
                 status = 4
-            if status>=4 and not haveErrors:
+            if status==4 and not haveErrors:
                 saveReference( BBB, C, V, S, refList )
                 status = 9
         self.referenceList = refList
@@ -1192,6 +1200,13 @@ class BibleReferenceList( BibleReferenceBase ):
                 status = 9
         elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
+        elif status==4 and temp: # Ended while still getting the next chapter number or book name
+            if temp.isdigit() and BBB is not None: # It must be specifying an entire chapter (like Gen. 1:2; 3)
+                saveReference( BBB, temp, '', '', self.referenceList )
+                status = 9
+            else:
+                logging.error( _("Unexpected end of Bible reference {!r} after {!r}").format( referenceString, temp ) )
+                haveErrors = True
         elif status==4: # Must have ended with a separator character
             logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
             haveWarnings = True
-- 
2.43.0


From 64b913413a2cad4191aec4666335536b99e0a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 029/151] fix: BibleReferenceList returns failure (not
 TypeError) for a number after an unknown book

---
 BibleOrgSys/Reference/BibleReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 7db4ba7..eb3ef0a 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -929,7 +929,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     S = char
                 elif C and char in self.punctuationDict['chapterVerseSeparator']:
                     status = 3 # Start getting the verse number
-                elif C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
+                elif C and BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
                     V = C
                     C = '1'
                     if char in self.punctuationDict['verseSeparator']:
@@ -1191,7 +1191,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     break # Seems better to break on this one or else we get lots of errors (e.g., if a fr is left open in a footnote)
                 continue
         if status==2 and C: # Getting chapter number
-            if self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
+            if BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
                 status = 4
-- 
2.43.0


From b79f09664e65d5a6ee28730adfcecb9f6dbbbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 030/151] fix: BibleReferenceList handles another book after a
 single-chapter book

---
 BibleOrgSys/Reference/BibleReferences.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index eb3ef0a..65ca17f 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -937,8 +937,13 @@ class BibleReferenceList( BibleReferenceBase ):
                         status = 3 # Get the next verse number
                     elif char in self.punctuationDict['bookSeparator']:
                         saveReference( BBB, C, V, S, self.referenceList )
-                        BBB, C = None, ''
-                        status = 0
+                        C = ''
+                        if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
+                            temp, spaceCount = '', 0
+                            status = 4 # We don't know what to expect next
+                        else:
+                            bookNameOrAbbreviation, BBB = '', None
+                            status = 0
                     elif char in self.punctuationDict['verseBridgeCharacter']:
                         saveStartReference( BBB, C, V, S )
                         status = 8 # Getting verse range
-- 
2.43.0


From cee0b3d903e64b0cffa0d1a41f2e5d68da6c37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 031/151] fix: BibleReferenceList handles all allowed suffixes
 (and bad text) at the end of a verse range

---
 BibleOrgSys/Reference/BibleReferences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 65ca17f..8ea6cad 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -763,7 +763,7 @@ class BibleReferenceList( BibleReferenceBase ):
             Checks the reference info then saves it as a referenceTuple in the refList.
             """
             fnPrint( DEBUGGING_THIS_MODULE, f"BibleReferences.saveReferenceRange( startTuple={startTuple}, {BBB}, {C}:{V}, S={S}, refList={refList}" )
-            if V and not S and V[-1] in ('a','b','c',): # Remove the suffix
+            if V and not S and V[-1] in self.punctuationDict['allowedVerseSuffixes']: # Remove the suffix
                 S = V[-1]; V = V[:-1]
             if V=='3O': V = '30' # Fix a bug in byr-w.usfm
             if not BBB:
@@ -783,6 +783,9 @@ class BibleReferenceList( BibleReferenceBase ):
                 assert not S or len(S)==1 and S.isalpha() # Suffix should be only one lower-case letter if anything
 
             nonlocal haveErrors, haveWarnings, totalVerseList
+            if V and not V.isdigit(): # We can't do anything with this
+                haveErrors = True
+                return
             if len(S) > 1:
                 logging.error( _("saveReferenceRange: Unexpected long {!r} suffix in {} Bible reference {!r}").format( S, BBB, referenceString ) )
                 haveErrors = True
-- 
2.43.0


From 08c41fdf456ee3eaf946b85361c9cb56581ac510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 032/151] fix: reference parsers handle book names with spaces
 like 'Song of Solomon'

---
 BibleOrgSys/Reference/BibleReferences.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 8ea6cad..0b42757 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -240,7 +240,7 @@ class BibleSingleReference( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have the complete bookname yet (could be something like Song of Solomon)
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -452,7 +452,7 @@ class BibleSingleReferences( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have the complete bookname yet (could be something like Song of Solomon)
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -841,7 +841,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn+1:nn+2].isalpha(): # Don't seem to have the complete bookname yet (could be something like Song of Solomon)
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -1037,6 +1037,8 @@ class BibleReferenceList( BibleReferenceBase ):
                     if char in self.punctuationDict['chapterVerseSeparator'] and temp and temp.isdigit(): # Assume it's a follow on chapter number
                         C = temp
                         status = 3 # Now get the verse number
+                    elif char==' ' and not temp.isdigit() and adjustedReferenceString[nn+1:nn+2].isalpha(): # Could be something like Song of Solomon
+                        temp += char
                     elif char in self.punctuationDict['bookChapterSeparator']: # but this is often a space which also occurs in things like 1 Thess
                         BBB = self.getBBBFromText( temp )
                         if BBB is not None: # Must have found a bookname
-- 
2.43.0


From 0b613bd0e4c641c15aa1ce3356bf375cf792958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 033/151] fix: reference parsers don't crash on a recognised
 book that has no name in the books names system

---
 BibleOrgSys/Reference/BibleReferences.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 0b42757..8897f65 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -155,7 +155,7 @@ class BibleReferenceBase:
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'bNSN', booksNamesSystemName )
         if booksNamesSystemName and booksNamesSystemName!='None' and booksNamesSystemName!='Unknown': # default (if we know the book names system)
             #assert BibleObject is not None
-            self.getBookNameFunction = self._BibleOrganisationalSystem.getBookName
+            self.getBookNameFunction = self._getBookNameIfKnown
             getBookAbbreviationFunction = self._BibleOrganisationalSystem.getBookAbbreviation
             self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book code from the vernacular name or abbreviation
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleReferenceBase: bns={}".format( BOSObject.getBooksNamesSystemName() ) )
@@ -165,6 +165,15 @@ class BibleReferenceBase:
             getBookAbbreviationFunction = None
             self.getBBBFromText = BibleObject.guessXRefBBB
     # end of BibleReferenceBase:__init__
+
+    def _getBookNameIfKnown( self, BBB:str ) -> str|None:
+        """
+        Returns the default book name,
+            or None for a book code which isn't in this books names system (but was recognised from its BibleBooksCodes abbreviation).
+        """
+        try: return self._BibleOrganisationalSystem.getBookName( BBB )
+        except KeyError: return None
+    # end of BibleReferenceBase:_getBookNameIfKnown
 # end of class BibleReferenceBase
 
 
-- 
2.43.0


From a7df6464dac836d4829c84689fd425c8d7d87ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 034/151] fix: Spanish and Portuguese book names systems call 2
 Peter '2 Pedro'

---
 .../BibleBooksNames_por_traditional.xml       |   2 +-
 .../BibleBooksNames_spa_traditional.xml       |   2 +-
 .../DerivedFiles/BibleBooksNames_Tables.json  |   8 ++++----
 .../BibleBooksNames_Tables.pickle             | Bin 107120 -> 107115 bytes
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml
index d8b2279..8f88947 100644
--- a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml
+++ b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml
@@ -686,7 +686,7 @@ See the supplied ReadMe.txt for more details.
     <inputAbbreviation>1 Saint Prre</inputAbbreviation>
   </BibleBookNames>
   <BibleBookNames referenceAbbreviation="PE2">
-    <defaultName>1 Pedro</defaultName>
+    <defaultName>2 Pedro</defaultName>
     <defaultAbbreviation>2 Pie</defaultAbbreviation>
     <inputAbbreviation>2 Prre</inputAbbreviation>
     <inputAbbreviation>2 Saint Pierre</inputAbbreviation>
diff --git a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml
index 5e2568b..c152100 100644
--- a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml
+++ b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml
@@ -686,7 +686,7 @@ See the supplied ReadMe.txt for more details.
     <inputAbbreviation>1 Saint Prre</inputAbbreviation>
   </BibleBookNames>
   <BibleBookNames referenceAbbreviation="PE2">
-    <defaultName>1 Pedro</defaultName>
+    <defaultName>2 Pedro</defaultName>
     <defaultAbbreviation>2 Pie</defaultAbbreviation>
     <inputAbbreviation>2 Prre</inputAbbreviation>
     <inputAbbreviation>2 Saint Pierre</inputAbbreviation>
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
index a99bb2e..d653dec 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
@@ -4093,10 +4093,10 @@
         ]
       },
       "PE2": {
-        "defaultName": "1 Pedro",
+        "defaultName": "2 Pedro",
         "defaultAbbreviation": "2 Pie",
         "inputFields": [
-          "1 Pedro",
+          "2 Pedro",
           "2 Pie",
           "2 Prre",
           "2 Saint Pierre",
@@ -11245,10 +11245,10 @@
         ]
       },
       "PE2": {
-        "defaultName": "1 Pedro",
+        "defaultName": "2 Pedro",
         "defaultAbbreviation": "2 Pie",
         "inputFields": [
-          "1 Pedro",
+          "2 Pedro",
           "2 Pie",
           "2 Prre",
           "2 Saint Pierre",
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle
index 5ed875e89b1e007a49f38b3ac9929f4ca7d3e3de..8595d5f309be08f1438988c528a832d575eaeb05 100644
GIT binary patch
delta 3361
zcmXZed019u8U}D5(DwzGgfzuW<$QkMK~a!J3lIccun-qS(KH22NOoiqO;CZ#4HbNm
z#|1-Bo3b&rQYLFA)UFy$+pO!#nN*xMou<H<7H2e_=l<%S!|#62cb4~TH(l?j@7_^I
zbAF*P4oaeduT}rD+l!_iA3}YS9?FRy)UDgHklG$${<E?(8<vGFY8c@j%lV(b8B-R+
z8<MD>BCA`s91m_uqL98C_L2p*Nh~wIe*O7J{HPCB+{b;UQ?Tj>_viTO6s8Bk4_fAl
z72~x(Y+2^s`3P;p0hXC?Axe*igDkW5!UPothx57_6s#lQNQ;lIqEI~nA=WY>AB@$L
z;VG6m-x8@4;c1rX-5R53!O51H)tagwhZk7paBHMagVQbZed}DE4d+<AZ#9k9g$PBK
zso0;O%i)z4`&Ur3u0&WPdp!`RpMjsXO#RbwdNW*W@y!Z~)7ue@Wv<DOcEP(XbL!U^
zy$^1&%*>(N)gR%*oSs7C)vNGp+>#>O{t14=GKIt9^xJT|Wqd0m^t<qTmN|AYN}q=>
z$bl<k^(XK}i@Vm+B>g$UCCgZA7O1Om2RF~90(~96VR7Foiq$_LbjsOTQTj*tCyTEU
z&DXaP?pPe>L9xoiA;FVl=TVUMg1sGFP%X#sLGX2$(BaW)06dWI&7*Mr5In@eYds}6
z5QfVZHFB#*AdGYve`mN3hQ~PgS`Ag}NQ5YdNv<x}li?{2li^C#N$_-ssk)S{=fbHD
zbMsQTUI;(o;9x~nYAHe{7cQiOx(HtG;0#S;^$LV?hxs^QoT`8;x&8@?(baH`gFjkN
zQ`9De&FsHOrdJ2oJ9y>>x$}((?BEMtG)gxi>~-)xFA7zy2>ZEf5k;vN;g>jMvF!I1
z_=tlGH`0K%O^Ydn)Kv_1aC;gR(7$+0I$bAk_RFBvYQS(=Gmv*>PzQzZ(@UsAO~6nr
z-&sOiR5Co9w>?SUs1mr8S1+Y<wGOW0TTAJL+5<Q7>zNd-TH*ctb0(#F93F0B6B_hs
z44oOyMfcIhw&JH~BB|RLy2B@z(M09x6nAHjY;iBRHz#IOg6aqN=f-S`SA*e)_;NN)
zRl{K?2j<WiH4+Zwv>bAJ1&eDvW|x}utdV*wR*Z9+x~woA1&?<c`imd;&ZWUB4g>KV
zluM)46gYv?;6!*D*XL5AnhmG$wOpE{7QhQRFpoy4G&r5-=TWeCCY&V;Q}y-(d?1e=
zpj<wgM`5ZMYfAXvc@(FfhF5b$zRa%*uI6?5ve%99CO(@l^Q(jF*{49hNsTb`<N^v;
zP4Hf>ERcP+!u$Dn0mbV>@XJn9v}2Sy3LoR(LK@|9!fCo@270{ZH0h@;U(cCKGJgM5
zp2m;P@Ee6P&A-BD`8)Un_(L92L_z9P_%ohWMA6<~z?WrV3eSx8`3KUMvZ(E`AgdrJ
z!_>1&U&r7Lr@5Lulm{=TL8=o2T^zMs-mstGpPeRjryp;|%G(&Y!-tm3Y&~7#?tF8(
z%&;fiivx@0Zu-E!oK`GXZ6NH&2a72}4S|R9m&NjYIbj#ON+?nV!lQU;iR>o?4&}Wi
zvY&_HNBENxxoXjH4EHRRcVrSgnG;KCvPy)faYHH1P|5IYzFsO%*L?VK9#=*Y_b-Oi
zWKpZb{O9DCE-Nv~1DxJVF`Ow2<8!V*x0jKh%E3@BUn!$-?;?0PR*!x^RINZN=j0V6
z?>=0~wJRu7JqNGnU*I~po|lx<615xN!{^Fnel2h-d#{w6^9T4vj$SEqIt;(Ur7Pw0
z|2ll!<!-8z@S84oQ?<jVTxcr&F8rR0t7gcK&LdplBdg>teF9%}xtr>9_>#-rR9E1u
zE_YLX1%K^wH`Vv>4=#68{RjThg{D%!!gslOwS2ogZE<%SMWuSdy?I!Le3X3Q`)zkm
z`N4y1^pqL~`*T-?Jk~ZGV7qH72oAR0H8mC<XQQTc92{?RMhZpg1ca%!xq3HNC&ANg
zcTc6jb8L4{Er1u=?w(4AGvvUPu__CGiaXcRWSs}++o&mB0+-snZ!YDl3WQ3&uS$xr
z8m^JElbYH9Z?u1_sci^#w!5ZuBLYj9C$Co%!d}j=mSY@%589|HeF%QpZk#VS;V68}
zcGr|TfzZbJHBwn`!GE^VQtC8(hC6DgMqhwGu-zr~Ief`>msAIQ&32d64fvn7yQDhd
zF56vF`WC`}Z7y0!2XyxU2|WUSYpI?Hy#m}V<pcY2?Rtt)1K@%D;d)BYL*ZcoY%P+>
zIT2huV}m?Zf$%7<LSco#p#koW(hnm%62LbXQKXJWhza1(#quUkM3~f8u#v`-DnTf1
zJF<!Tl469NZSQQRC8XLBPVwk1@=-nupW})x@^X9xf6Q-gp#|!1@ZWjxR(Z)f;A@<^
zl_t@*ynCy>>zx?t;;**SY_D75-&^7VPT5BN^<AvJ7r+JEXoBi7LW1H~#nhW`;!i&g
zsgsY^gIF_|%j@V7<quo@dYyc1Y&d{#)KQWe1BdYVdRnX^;V5pdr*Mkni}f^CO~ufo
z+-JLNHXWY96SvE>=EAAGeLLl<#c&#X8k(sx;VhnS<lB`8=krcOPpUF_1yh3@vJzgy
zDGjop=iv3czd=rM3%r#(<TupFK|5p@&ts^W^LNNqItahOFYcgu>Ii(4do;>sC*U@o
z*hq6!JA8_p8s*_V3!fWd+WT7U#nN7%V&F4QW}2-o!&mqvmh<@r{+4gEoX-z%Cr{fc
z|55$~|ID>J=`np5zBhuu*h#6%d!&S(9I;C-kPqz3#k=GHgWw1G&0TWl{;<Wjcgb0e
zgadi*Zfa2D;D@<$H`S?lcp^W$hgPX1csh4)l8<XDJdX>Ts6eH|8T@4vm8u*#mly4&
zT2%^{apzuoMy-L@@~Y?M9G-=r<I~T}1Zv?e?Aa_=$-oU9*DU|0?17uOwwbcjLHGr}
z)hsviD13~w_ffKX13t;^@M-uA4{V{w)cf#x&VoOMKjY&q^1t9^_)24|^x)UvH=NK)
Gf&T{@io2`;

delta 3386
zcmXZed0drM9tLoKB<F~`<U*0kd%e7uL<Phx5Wxj4LlhTa5L6sNWfKsDL|mIJ0|j36
z!421HT9ry^a;j08PmPAvw9HtIN;NH3BTSP{r84Ka%|Gw`KIhzf-gC~o{O-3cs=Y-W
z&$%HHFXi57>Lv*%21~C5t4c=%&B<C;ysCahc$M$ypgAkE>Q{`;s1M2cIjBpQoL_>R
zu+kW8Nsv30k7XL}z`g_t@6(O;GY9@=W~tLJpg*qhOTF3A2i<1LDBYhPU^yHAI}r0`
zNua))4S|-Ez9w2*w99fj-=3g7bcltHa*5I-8Ae&ohSo_sk{)9@um3bs-A6~^SfY&9
zv2>i}gkKn=<LT)ZhOCwQ^n(lu78b3Q7@fp0*K+0@PS$DkLJOVz))IzH3$YclK;<yx
z;=mjksSD{M3l}P6x+-UQ2t$+1Q0wUpX54iWr+>%rh~?C-jZ;;0HQJM8vUcct%V|3r
zr}xl%E$8&D7=4I7Y&o-s)amEx7c8goc9edJe%W#^-;ULPpkK9|RYT+SpXk$;)30)Z
zev^L7a+=<c(yjCbbKc5W^*;RpuFaQe`Xc?Y<yh;})D^l7dlpE6`i8!W-pOXp*XVXL
zH!Dj2NME<mCX%XeGTgEd=OeM|4wngC5tSk%l^@+5`6=cM{b+xe6ESR}8bk-+=M;(5
zgXtkIY`8-r)i4G(@>5O6z4UOG6XcFmVRSgIq{<c@MMt}wq|IeIo}TV<GJ|L8S#+Yy
z*>rKGPNq{_PRGSaola-CFiOcLmBo;aoQ3j)E~1NF$kZ}Mmob#PocBCqRVBS1Rp}C=
zw$Kmbopf_GAE&Djm|>PyOV=Th2Hk*788SleryE`9>?RTF2*Xi)n;}u^Y5Ez2E;552
zqmMTiERq?bt}wLW)M6>{`QC-aJtP5TOJuKf$DNr{p#}{z{Q;=Ylq(W}(xtMlM=YD-
z%%Q5g(|9G@>9ft{H<xYm%)#mOIfL2D#8M?}D#e;*Ql>W1oAJXkIjQ#1`*AEwCaNR!
zQFLTUvd;^{oY?90`YfAThM};xJl34QT&9S+$);O4u|lS(u5M#r+@gEZy%4|B>`s4r
z0BTptWOWZc7=K?WGnAVSMsSXV`3<K-%>jLPh$UgzkR#!GEL+F9oto^?I+~v7cI5Q{
z=v)a@li4r@A-OU_O{Zrdjed|$Kvk~HRP*Th_%v6hs)ckqg7YM#?-DxG9IAX1SLCnE
zL~X3N{j%A*+#H-uZw$bJJQ*N)IFTo#)oS*X;QKs@Qx)_&MCO}iZl<@OBHxU^jeZ<0
z`DU55bRBvW$S4K60kH+<Hr`J+qP)P2d4xWS;|1pFewKdD?G)||)lKw^ZYQDlaGz$k
z(>{B+yoODy%<XiRJuP^7m09Iq=yUjzeusV+0fpu*^CA6_+o|m1Mq!~0QvYDXB~%wm
zSl`d-FU+CJH!Zs$C)24#u>OXPSKZF#q#+nsBzLKHHgsTYk$D+jr*F8Oh=u?>!p@s)
zxP>Q*%qqJE8~ftBBD1m{bWa2qOPK0M`y;K`>{bAM7Y-K71T};nic7`j_6nwL1g)0)
zR46?Hi&vX*BIwa*SZ&4`PftMWYO`B0^d$I}m?vf$9gp}DnWi436R@L164hLK9zHKI
zH`j0IG=!I$^Dd^BprBO3{j%t6b8z~e>yJ~V5}<O~l!uF@66se&7qffB`3S!<rgEmj
z^R|E2h@hDT|1V&b>{*YkYa~l;r60w==~}uD8D+9m?WOnO&t+zbhv_5eT5c}m@9C#8
zzT7P91^O6Pm76U&L7zlZx%vJn`j2QYmuPjGK7)vdBv!vkzZJ})rCaF>!8o2M5&C_G
z4}w{>)J6JZ3|?#Y>N0%=8Ea*d`X~J*4y~0G^)LDwZu2|;p?}1r3Q5+t>CRvroMUdR
zuC@ujXswVLx+mSsT(KlGRey#%k+II)yLZud+pJhRh_-BWB$=|{VF<CkC2JHNW_wH4
zSbCi8Em@Q4DYmy{&7kkMy(McFooIVY)_i(_?JZdg>2%v$vNGwV=ERk;dO5wqM*Do3
zs`D8NY}PDYLYLauyFl`FCBu3feUi;qZee)XOwUxU$LMYLuT`stq1N_REe(bS8__9z
zhch(VC`d79d4l0dn{`V+OFw7hmlX5NG%>trdkdFtW_ZQ?B-LE)*BD;Mp)IDaoTXdL
zDN|*$zQFK~?JZpw>5px1>1v}tv%RJ3D*dhPEnV$&hwUw0`X`2;ZR9SLquSSFg7W-Y
zyLvG6^ssj6ezd;_)#)-(4`K-L;N5hI*FzbCJh+EtDwx6cU^YW2!w3&ryGf{yU>NQ3
z7BD@YVS)$WWthJ_F$|MD7_rC<J(Xda2dfszz~+sQiCa_&n@XFX*(QBNH8AXMe&caj
zD(W=D8F;GAyZRh`9%a?$_J5E5D^6BRn)-zP6a%-*Sk*><hNSH>Rldf~?dAp0&ZZ7r
z-Y#=}e)3>rjszlchxFH-?C27Ll{?I>uR=`Fc-~lg;X8ixM`(?Ci3PIf9u(KecxBNp
z9IG)e9}gXZFKQ$~h0_rjS1XHD6djE{wGt_laiLbmsQcOU0J_zgpC!_>5mRSYluW0f
zx=wP{VtNT~*U4;^O)tkh$2@!abO9Vkeyi5dWw_~>Q?92sAhF(zvz2}njrC@V+vy$n
zq+SvP2-#_dIKZZZSh3S=(3A92II`0`;>YQxUAxS$n#orXvrFcy)ASi&m)X2?^m(-H
zGOw-=>5q^AnX4|*mvIzkCSTEC<2uYtuF>t7-e6u!*XbMB+8__;PP)sz_*;V{tM2!j
z&;yaX&DQjz{gJ=h6v(^jK%Crd=4{a}T;FXbG@K5_oIO&n#?j+(b&u4jDfCoq+$#^M
zS#%;g_nL{O(5cATXa0s}(o1n^pOmOvIuEJ)rAn33YjAbHJghd*8&T3|=I{u;6|Xg#
z1ys}9al6rMP(8g9(Fe@`m3{PnY&{^^>Ph-3{BXcr!Y2AfEITMk>Q(v_PSI!S7Wf~M
j2h`hiD>CU1>5p*yki@G?^kw{V$dtq{>8~*PunhknzDvb_

-- 
2.43.0


From cb826e68a61621744fcef05befc2363e734ea65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 035/151] fix: loading USFM keeps the text of a line with
 mismatched \w fields

---
 BibleOrgSys/Formats/USFMBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c24f716..e90bfa7 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -449,7 +449,7 @@ class USFMBibleBook( BibleBook ):
                                     .format( self.BBB, C, V, marker, text ) )
                 logging.error( _("Found wrongly coded w fields in \\{}='{}' after {} {} {}:{}") \
                                     .format( marker, text, self.workName, self.BBB, C, V ) )
-                text = f'{text}\\w*' if marker=='w' else ' '
+                if marker == 'w': text = f'{text}\\w*'
             if (marker == 'w' and text.count('\\w ')+1 !=  text.count('\\w*')) \
             or (marker != 'w' and  text.count('\\w ') !=  text.count('\\w*')):
                 loadErrors.append( _("{} {}:{} Found mismatched w fields in \\{}='{}'") \
-- 
2.43.0


From c595e34a06fd891885e2d28e44b17c6685523fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 036/151] fix: loading USFM keeps a line that begins with a
 character marker

---
 BibleOrgSys/Formats/USFMBibleBook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index e90bfa7..5f64874 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -590,6 +590,9 @@ class USFMBibleBook( BibleBook ):
                         #dPrint( 'Never', debuggingThisFunction, 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
                         logging.critical( f"Programming error ¬ZALN: USFMBibleBook.load() lost '{self.workName}' {self.BBB}_{C}:{V} text after {lastMarker}='{lastText}': {marker}='{text}'" )
                         if self.doExtraChecking: halt
+                elif lastMarker:
+                    if not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
+                    lastText +=  '\\' + marker + ' ' + text
             elif BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
             or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ): # the line begins with a note marker -- append it to the previous line
                 if text:
-- 
2.43.0


From ea3aaa974a0927a38212bd03e81e43e99302fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 037/151] fix: exporting USFM without verse bridges keeps the
 verses of a bridge at the end of a book

---
 BibleOrgSys/BibleWriter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..85dba55 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -737,6 +737,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
@@ -910,6 +913,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
-- 
2.43.0


From 61ca3b10e74f7c763739b7763dfaaaed296af366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 038/151] fix: toUSFM3 writes the USFM version line into every
 book

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 85dba55..7aac68d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -811,7 +811,6 @@ class BibleWriter( InternalBible ):
         #assert controlDict and isinstance( controlDict, dict )
 
         # ignoredMarkers = set()
-        addedUSFMversionField = False
 
         # Adjust the extracted outputs
         for BBB,bookObject in self.books.items():
@@ -829,6 +828,7 @@ class BibleWriter( InternalBible ):
                         assert BBB in ('FRT','BAK','GLS','XXA','XXB','XXC','XXD','XXE','XXF')
                     numC = numV = 0
 
+            addedUSFMversionField = False # for this book
             bookUSFM = ''
             # Prepend any important missing (header/title) fields
             if internalBibleBookData.contains( 'id', 1 ) is None:
-- 
2.43.0


From 9c5b7dfc67017e6e887a69bde2318ab5c86b4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 039/151] fix: loading BCV files with a byte order mark no
 longer raises NameError

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index ce47eb2..9d13cfc 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -524,7 +524,7 @@ class BCVBibleBook( BibleBook ):
                 for line in myFile:
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( filename ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
-- 
2.43.0


From 0a48e7f11d9af2064aab5704280a8172001d1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 040/151] fix: loading BCV files calls the line fixing method
 by its name

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 9d13cfc..19f2137 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -552,7 +552,7 @@ class BCVBibleBook( BibleBook ):
                     else:
                         if originalMarker is None: originalMarker = marker
                         if text is None: text = ''
-                        adjText, cleanText, extras = self.processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
+                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
                     self._processedLines.append( InternalBibleEntry(marker, originalMarker, adjText, cleanText, extras, text) )
 
             #if loadErrors: self.checkResultsDictionary['Load Errors'] = loadErrors
-- 
2.43.0


From 2fe4885ff78a89b6fc96ae039d72fb615fb84d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 041/151] fix: loading BCV files keeps << in the text of a line

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 19f2137..e945060 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -532,7 +532,7 @@ class BCVBibleBook( BibleBook ):
                     ixEQ = line.find( '=' )
                     ixLL = line.find( '<<' )
                     if ixEQ == -1: ixEQ = LARGE_DUMMY_VALUE
-                    if ixLL == -1: ixLL = LARGE_DUMMY_VALUE
+                    if ixLL == -1 or ixLL > ixEQ: ixLL = LARGE_DUMMY_VALUE
                     ix = min( ixEQ, ixLL )
                     marker = line[1:ix]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'marker', repr(marker) )
-- 
2.43.0


From b73b07eec9e08aaa810076ad0eb8898ec0cd030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 042/151] fix: loading BCV files recognises the v= marker

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index e945060..b38ed87 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -529,7 +529,7 @@ class BCVBibleBook( BibleBook ):
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
                     assert line and line[0]=='\\'
-                    ixEQ = line.find( '=' )
+                    ixEQ = line.find( '=', 3 if line.startswith( '\\v=<<' ) else 0 ) # 'v=' is a marker
                     ixLL = line.find( '<<' )
                     if ixEQ == -1: ixEQ = LARGE_DUMMY_VALUE
                     if ixLL == -1 or ixLL > ixEQ: ixLL = LARGE_DUMMY_VALUE
-- 
2.43.0


From 5d10c4c6fbc91eca143226f44879bd74a3860f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 043/151] fix: loading BCV files does not double published
 verse numbers

---
 BibleOrgSys/Formats/BCVBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index b38ed87..4c41a30 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -536,6 +536,7 @@ class BCVBibleBook( BibleBook ):
                     ix = min( ixEQ, ixLL )
                     marker = line[1:ix]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'marker', repr(marker) )
+                    if marker == 'vp#': continue # The line with the vp field will give us this again
                     if ixLL == LARGE_DUMMY_VALUE:
                         originalMarker = None
                         if marker == 'v~': originalMarker = 'v'
-- 
2.43.0


From a881efe4b6f84599cae530cc2ef968f5260732b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 044/151] fix: loading BCV files finds the file of a book
 without chapters

---
 BibleOrgSys/Formats/BCVBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 4c41a30..59cea63 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -518,8 +518,9 @@ class BCVBibleBook( BibleBook ):
                 filename = self.BBB+'_C'+C+'V'+V+'.txt'
             else:
                 assert CV == ('-1',)
-                C = V = '-1', '0'
+                C, V = '-1', '0'
                 filename = self.BBB+'__Intro.txt'
+                if not os.path.exists( os.path.join( self.sourceFolder, filename ) ): filename = self.BBB+'_C0.txt' # for books without chapters
             with open( os.path.join( self.sourceFolder, filename ), 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
                 for line in myFile:
                     lineCount += 1
@@ -532,7 +533,7 @@ class BCVBibleBook( BibleBook ):
                     ixEQ = line.find( '=', 3 if line.startswith( '\\v=<<' ) else 0 ) # 'v=' is a marker
                     ixLL = line.find( '<<' )
                     if ixEQ == -1: ixEQ = LARGE_DUMMY_VALUE
-                    if ixLL == -1 or ixLL > ixEQ: ixLL = LARGE_DUMMY_VALUE
+                    if ixLL == -1 or ixLL > ixEQ: ixLL = LARGE_DUMMY_VALUE # it's part of the text
                     ix = min( ixEQ, ixLL )
                     marker = line[1:ix]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'marker', repr(marker) )
-- 
2.43.0


From e8882e7a7011366aceee5dfe7e13c3c8f0357499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 045/151] fix: loading verse-per-line Bibles uses the name of
 the variable of the text

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..bc66125 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -754,7 +754,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
-- 
2.43.0


From d523820cd84adab4f8edc312be2b19a945755c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 046/151] fix: psalm titles of verse-per-line Bibles go to
 their own psalm

---
 BibleOrgSys/Formats/VPLBible.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index bc66125..08acbcf 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -463,6 +463,7 @@ class VPLBible( Bible ):
                         #continue # Just discard comment lines
 
                 # Process the main segment
+                psalmTitle = None
                 if vplType == 1:
                     bits = line.split( ' ', 2 )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.givenName, BBB, bits )
@@ -519,7 +520,7 @@ class VPLBible( Bible ):
                         if BBB=='PSA' and verseNumberString=='1': # Psalm title
                             vBits = verseText[1:].split( '»' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "vBits", vBits )
-                            thisBook.addLine( 'd', vBits[0] ) # Psalm title
+                            psalmTitle = vBits[0] # Saved below, after any new book or chapter has been started
                             verseText = vBits[1].lstrip()
 
                     # Handle the verse info
@@ -749,6 +750,8 @@ class VPLBible( Bible ):
                             else:
                                 logging.warning( _("Ignored duplicated {} verse number in {} {} {} {}:{}").format( verseNumber, self.givenName, BBB, bookCodeText, chapterNumberString, verseNumberString ) )
 
+                        if psalmTitle is not None: thisBook.addLine( 'd', psalmTitle )
+
                         # Check for paragraph markers
                         if verseText and verseText[0]=='¶':
                             thisBook.addLine( 'p', '' )
-- 
2.43.0


From 8f94893613fb4a5aaf5b6d27dd7ef7045a828432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 047/151] fix: verse-per-line Bibles can be loaded without
 giving an encoding

---
 BibleOrgSys/Formats/VPLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 08acbcf..4ffcdc1 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -350,7 +350,7 @@ class VPLBible( Bible ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
                 if not line: continue # Just discard blank lines
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if (self.encoding is None or self.encoding.lower()=='utf-8') and line[:1]==BibleOrgSysGlobals.BOM:
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
                     # Try to identify the VPL type
@@ -392,7 +392,7 @@ class VPLBible( Bible ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
                 #if not line: continue # Just discard blank lines # NO, needed for vplType 5
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if (self.encoding is None or self.encoding.lower()=='utf-8') and line[:1]==BibleOrgSysGlobals.BOM:
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
 
-- 
2.43.0


From 8e9d4acfc89758b2432fbe1f8811bd0927075969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 048/151] fix: blank lines in verse-per-line Bibles are skipped

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 4ffcdc1..e3914c6 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -390,7 +390,7 @@ class VPLBible( Bible ):
         with open( filepath, 'rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
             for lineNumber, line in enumerate( myFile, start=1 ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
-                #if not line: continue # Just discard blank lines # NO, needed for vplType 5
+                if not line and vplType!=5: continue # Just discard blank lines (but they're needed for vplType 5)
                 if lineNumber == 1:
                     if (self.encoding is None or self.encoding.lower()=='utf-8') and line[:1]==BibleOrgSysGlobals.BOM:
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
-- 
2.43.0


From 8f675a0c4a03a08abda6ce3e1e0a0e0a05b6b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 049/151] fix: verse-per-line Bibles of several files can be
 loaded

---
 BibleOrgSys/Formats/VPLBible.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index e3914c6..c83eda3 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -343,6 +343,11 @@ class VPLBible( Bible ):
         """
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading {}…").format( filepath ) )
 
+        global BOS66, BOS81, BOSx
+        if BOS66 is None: BOS66 = BibleOrganisationalSystem( 'GENERIC-KJV-66-ENG' )
+        if BOS81 is None: BOS81 = BibleOrganisationalSystem( 'GENERIC-KJV-80-ENG' )
+        if BOSx is None: BOSx = BibleOrganisationalSystem( 'GENERIC-ENG' )
+
         # Preview the file
         vplType = None
         with open( filepath, 'rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
@@ -779,11 +784,6 @@ class VPLBible( Bible ):
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading {}…").format( self.sourceFilepath ) )
         assert self.sourceFilepath is not None
 
-        global BOS66, BOS81, BOSx
-        if BOS66 is None: BOS66 = BibleOrganisationalSystem( 'GENERIC-KJV-66-ENG' )
-        if BOS81 is None: BOS81 = BibleOrganisationalSystem( 'GENERIC-KJV-80-ENG' )
-        if BOSx is None: BOSx = BibleOrganisationalSystem( 'GENERIC-ENG' )
-
         if self.suppliedMetadata is None: self.suppliedMetadata = {}
         settingsDict = {}
         self._loadFile( self.sourceFilepath, settingsDict )
-- 
2.43.0


From 8601205258447ca9c60eb7acc83694d1d21d7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 050/151] fix: CSV Bibles in a folder can be loaded without
 giving an abbreviation

---
 BibleOrgSys/Formats/CSVBible.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..e85f715 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -234,14 +234,16 @@ class CSVBible( Bible ):
             self.sourceFolder = sourceFileOrFolder
             # NOTE: The following code assumes one file for the entire work
             #           but load() can also handle one file per book
-            for self.sourceFilename in (f'{self.givenName}.csv',f'{self.givenName}.CSV',
+            possibleFilenames = [f'{self.givenName}.csv',f'{self.givenName}.CSV',
                                         f'{self.givenName}.tsv',f'{self.givenName}.TSV',
                                         f'{self.givenName}.txt',f'{self.givenName}.TXT',
-                                        self.givenName,
-                                        f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
+                                        self.givenName]
+            if self.abbreviation:
+                possibleFilenames += [f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
                                         f'{self.abbreviation}.tsv',f'{self.abbreviation}.TSV', f'{self.abbreviation.lower()}.tsv',f'{self.abbreviation.lower()}.TSV',
                                         f'{self.abbreviation}.txt',f'{self.abbreviation}.TXT', f'{self.abbreviation.lower()}.txt',f'{self.abbreviation.lower()}.TXT',
-                                        self.abbreviation,):
+                                        self.abbreviation]
+            for self.sourceFilename in possibleFilenames:
                 self.sourceFilepath =  os.path.join( self.sourceFolder, self.sourceFilename )
                 # Do a preliminary check on the readability of our file
                 if os.access( self.sourceFilepath, os.R_OK ): # great -- found it
-- 
2.43.0


From d9bd152a771fe4a9393417987f6b891ec4ab97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 051/151] fix: CSV Bibles with numbered books are loaded

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index e85f715..406ae86 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -340,7 +340,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and bookNumber==-1 and not BBB:
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
                     continue
 
-- 
2.43.0


From 05de5a7705ae9a18bb0d54fc71c8dd95b3f1b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 052/151] fix: Forge Bibles which do not start with a title can
 be loaded

---
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index a76fb92..65973bb 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -280,9 +280,8 @@ class ForgeForSwordSearcherBible( Bible ):
                         if BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "First line got type {!r} match from {!r}".format( match.group(0), line ) )
                     else:
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ForgeForSwordSearcherBible.load: (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ForgeForSwordSearcherBible.load: (unexpected) first line was {!r} in {}".format( line, self.sourceFilepath ) )
                         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
-                        continue
 
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'ForgeForSwordSearcher file line is "' + line + '"' )
                 lastLine = line
-- 
2.43.0


From 1dba2758260a355ee241572d94657c5899b99d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 053/151] fix: fourth-level poetry in YET Bibles

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..bbc23c8 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -250,7 +250,7 @@ class YETBible( Bible ):
             # Paragraph markers (marked now with double backslash)
             verseString = verseString.replace( '@^', '\\\\p ' )
             verseString = verseString.replace( '@0', '\\\\m ' )
-            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\q4 ' )
+            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\\\q4 ' )
             verseString = verseString.replace( '@8', '\\\\m ' )
             # Character markers (marked now with single backslash)
             verseString = verseString.replace( '@6', '\\wj ' ).replace( '@5', '\\wj*' )
-- 
2.43.0


From 1b141658121fdb7218209f63915ea5bfb35c8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 054/151] fix: headings of the first verse of a chapter in YET
 Bibles belong to that chapter

---
 BibleOrgSys/Formats/YETBible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index bbc23c8..9b06c8c 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -389,6 +389,9 @@ class YETBible( Bible ):
             thisBook.objectTypeString = 'YET'
             lastChapterNumberString = None
             for (chapterNumberString,verseNumberString), verseString in bkData.items():
+                if chapterNumberString != lastChapterNumberString:
+                    thisBook.addLine( 'c', chapterNumberString )
+                    lastChapterNumberString = chapterNumberString
                 # Insert headings (can only occur before verses)
                 if (BBB,chapterNumberString,verseNumberString) in headingDict:
                     heading, refList = headingDict[(BBB,chapterNumberString,verseNumberString)]
@@ -423,9 +426,6 @@ class YETBible( Bible ):
                     verseString = verseString[:fIx] + '\\x - \\xt ' + note + '\\x*' + verseString[fIx+4:]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xvS", repr(verseString) )
                 # Save the Bible data fields
-                if chapterNumberString != lastChapterNumberString:
-                    thisBook.addLine( 'c', chapterNumberString )
-                    lastChapterNumberString = chapterNumberString
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumberString, verseNumberString, repr(verseString) )
                 if verseString.startswith( '\\\\' ):  # It's an initial paragraph marker
                     if verseString[3]==' ': marker, verseString = verseString[2], verseString[4:]
-- 
2.43.0


From 27a747607fbe340e571bd1d35a1ac5e90791bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 055/151] fix: paragraphs within verses of YET Bibles are not
 doubled

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 9b06c8c..f95a7a6 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -437,7 +437,7 @@ class YETBible( Bible ):
                 bits = verseString.split( '\\\\' ) # Split on paragraph markers (but not character markers)
                 for j,bit in enumerate(bits):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "loop", j, repr(bit), repr(verseString) )
-                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + verseString.rstrip() )
+                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + bit.rstrip() )
                     else:
                         if bit[1]==' ': marker, bit = bit[0], bit[2:]
                         elif bit[2]==' ': marker, bit = bit[0:2], bit[3:]
-- 
2.43.0


From 262c5ca5310c85aa8a9d04bafa783e029a36e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 056/151] fix: exporters failed on rem lines inside a bridged
 verse (they added one to the verse number)

---
 BibleOrgSys/BibleWriter.py              | 32 ++++++++++++-------------
 BibleOrgSys/Formats/OpenSongXMLBible.py |  2 +-
 BibleOrgSys/Formats/USXXMLBible.py      |  2 +-
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7aac68d..75cb429 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -586,7 +586,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
@@ -1682,7 +1682,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                     if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                         ignoredMarkers.add( marker )
@@ -2325,7 +2325,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
@@ -2688,7 +2688,7 @@ class BibleWriter( InternalBible ):
                 or C == 'I': # This second part also copes with misuse of
                     if self.doExtraChecking:
                         assert C=='I' or pseudoMarker=='rem' or pseudoMarker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
                     lastV = V
                 if pseudoMarker in ('id','ide','h','toc1','toc2','toc3','rem','ie'): continue # don't need these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorText processing {!r} {!r} {}".format( self.abbreviation, pseudoMarker, fullText[:60]+('…' if len(fullText)>60 else '') ) )
@@ -3294,7 +3294,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
@@ -4159,7 +4159,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4666,7 +4666,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5337,7 +5337,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -6003,7 +6003,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6203,7 +6203,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6797,7 +6797,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", haveOpenIntro, haveOpenOutline, haveOpenMajorSection, haveOpenSection, haveOpenSubsection, needChapterEID, haveOpenParagraph, haveOpenVsID, haveOpenLG, haveOpenL )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, toSwordGlobals['idStack'] )
@@ -7250,7 +7250,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7421,7 +7421,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7954,7 +7954,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9175,7 +9175,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9617,7 +9617,7 @@ class BibleWriter( InternalBible ):
                         if marker in USFM_PRECHAPTER_MARKERS:
                             if self.doExtraChecking:
                                 assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                            V = str( int(V) + 1 )
+                            if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
                         if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                             ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 1089419..ebd0a31 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -257,7 +257,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             if marker in USFM_PRECHAPTER_MARKERS:
                 if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
             if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                 ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..4f08d84 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -937,7 +937,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
             if marker in USFM_PRECHAPTER_MARKERS:
                 if self.doExtraChecking:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             # if BBB=='RUT': vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
             #     f"{BBB} {C}:{V} {marker}({originalMarker})='{text}'{'+extras' if extras else ''} mCT={getMarkerContentType} hOP={haveOpenPara} pJO={paraJustOpened} hOV={haveOpenVerse} nCV={needToCloseVerse}" )
-- 
2.43.0


From 5578b73c5980103faa08f5a98ab3a05d4fea5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 057/151] fix: escaping XML characters in a text that also has
 notes (was not implemented)

---
 BibleOrgSys/InputOutput/MLWriter.py | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..0c08d72 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -47,7 +47,7 @@ if __name__ == '__main__':
         sys.path.insert( 0, aboveAboveFolderpath )
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtraList
+from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtraList, InternalBibleExtra
 
 
 LAST_MODIFIED_DATE = '2022-11-22' # by RJH
@@ -310,6 +310,7 @@ class MLWriter:
 
         Extras contain an index number into the text string,
             so any expansion of the text string must also update those numbers.
+        The texts of the extras are also escaped.
 
         If checkFirst is set, prechecks that escapes haven't already been done and gives a warning
 
@@ -324,21 +325,18 @@ class MLWriter:
         if not extras: # We can use the simpler function
             return MLWriter.escape_characters( rawTextString, checkFirst ), extras
 
-        # Ok, we've got extras so we need to check more carefully
-        # Precounting might speed things up ??? (not profile tested yet)
-        escape_count = sum([rawTextString.count(c) for c in ESCAPE_MAP])
-        if escape_count == 0:
-            return MLWriter.escape_characters( rawTextString, checkFirst ), extras
-        else: dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{escape_count=} {[rawTextString.count(c) for c in ESCAPE_MAP]} {rawTextString=}")
-
-        # Ok, we've got chars needing to be escaped and we have extras so need to work through char by char
-        char_strings, adjExtras = [], InternalBibleExtraList()
-        for ix,char in enumerate(rawTextString):
-            if char in ESCAPE_MAP:
-                dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{ix=} {char=}")
-        dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{rawTextString=} {char_strings=} {extras=} {adjExtras=}")
-        raise Exception("MLWriter: escape characters with extras NOT WRITTEN YET")
-        return ''.join(char_strings), adjExtras
+        # Ok, we've got extras so we need to adjust their indexes as well as escaping their own texts
+        adjExtras = InternalBibleExtraList()
+        for extraType,extraIndex,noteText,cleanNoteText in extras:
+            adjIndex = extraIndex + len(MLWriter.escape_characters(rawTextString[:extraIndex])) - len(rawTextString[:extraIndex])
+            if extraType == 'ww' and '|' in noteText: # Don't escape the quotes around the XML-style attributes
+                word, attributes = noteText.split( '|', 1 )
+                for char,escaped_chars in ESCAPE_PAIRS:
+                    if char != '"': attributes = attributes.replace( char, escaped_chars )
+                noteText = f'{MLWriter.escape_characters( word )}|{attributes}'
+            else: noteText = MLWriter.escape_characters( noteText )
+            adjExtras.append( InternalBibleExtra( extraType, adjIndex, noteText, MLWriter.escape_characters(cleanNoteText), '' ) )
+        return MLWriter.escape_characters( rawTextString, checkFirst ), adjExtras
     # end of MLWriter.escape_characters_with_extras static function
 
     def start( self, lineEndings:str='l', noAutoXML:bool=False, writeBOM:bool=False ) -> None:
-- 
2.43.0


From 0d32edb4733d5f08e1c28cf5738065f8b23b7788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 058/151] fix: XML exports (USX2, USFX, OSIS, Zefania, Haggai)
 didn't escape &, <, > and quotes

---
 BibleOrgSys/BibleWriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 75cb429..35e6d65 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4160,6 +4160,7 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4667,6 +4668,7 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5338,6 +5340,7 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -6004,6 +6007,7 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6204,6 +6208,7 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
-- 
2.43.0


From 53ec52250a7d24e6f87c1a44a04109c2e4d4acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 059/151] fix: OpenSong export didn't escape the book name

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index ebd0a31..99ebc17 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -246,7 +246,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             logging.warning( "toOpenSong: Can't write {} OpenSong book because no OSIS code available".format( BBB ) )
             unhandledBooks.append( BBB )
             return
-        writerObject.writeLineOpen( 'b', ('n',bkData.getAssumedBookNames()[0]) )
+        writerObject.writeLineOpen( 'b', ('n',MLWriter.escape_characters( bkData.getAssumedBookNames()[0] )) )
         haveOpenChapter, startedFlag, gotVP, accumulator = False, False, None, ""
         C, V = '-1', '-1' # So first/id line starts at -1:0
         for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
-- 
2.43.0


From cfff4428f53b3cc66c9f658556cda58f8e159420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 060/151] fix: USFX export closed every paragraph as p

---
 BibleOrgSys/BibleWriter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 35e6d65..b183591 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4677,7 +4677,7 @@ class BibleWriter( InternalBible ):
                     if haveOpenPara: # This should never happen coz the ID line should have been the first line in the file
                         logger.error( "toUSFXXML: Book {}{} has a id line inside an open paragraph: {!r}".format( BBB, " ({})".format(USFXAbbrev) if USFXAbbrev!=BBB else '', adjText ) )
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     adjTxLen = len( adjText )
                     if adjTxLen<3 or (adjTxLen>3 and adjText[3]!=' '): # Doesn't seem to have a standard BBB at the beginning of the ID line
@@ -4691,7 +4691,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'c':
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, 'C', repr(text), repr(adjText) )
                     C, V = text, '0' # not adjText!
@@ -4725,7 +4725,7 @@ class BibleWriter( InternalBible ):
                 elif getMarkerContentType == 'N': # N = never, e.g., b, nb
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     if adjText:
                         logger.error( "toUSFXXML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
@@ -4733,24 +4733,24 @@ class BibleWriter( InternalBible ):
                 elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     if not adjText: xw.writeLineOpen( originalMarker )
                     else:
                         xw.writeLineOpenText( originalMarker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
-                    haveOpenPara = paraJustOpened = True
+                    haveOpenPara, paraJustOpened = originalMarker, True # Remember which marker has to be closed
                 else:
                     #assert getMarkerContentType == 'A' # A = always, e.g.,  ide, mt, h, s, ip, etc.
                     if getMarkerContentType != 'A':
                         logger.debug( "BibleWriter.toUSFXXML: ToProgrammer — should be 'A': {!r} is {!r} Why?".format( marker, getMarkerContentType ) )
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     xw.writeLineOpenClose( marker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
             if haveOpenPara:
                 xw.removeFinalNewline( suppressFollowingIndent=True )
-                xw.writeLineClose( 'p' )
+                xw.writeLineClose( haveOpenPara )
             xw.writeLineClose( 'book' )
         # end of toUSFXXML.writeUSFXBook
 
-- 
2.43.0


From 4c0bd3287f7565b686bd40c115f2be3e8d6871da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 061/151] fix: nested character markers made XML exports badly
 formed or raw

---
 BibleOrgSys/BibleWriter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b183591..b0aba3b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3825,7 +3825,7 @@ class BibleWriter( InternalBible ):
                 #     pass
 
                 # Old code
-                adjText = originalText
+                adjText = originalText.replace( '\\+', '\\' ) # char fields can be nested in each other
                 haveOpenChar = False
                 for charMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "handleInternalTextMarkersForUSX2", charMarker )
@@ -4399,7 +4399,7 @@ class BibleWriter( InternalBible ):
                     pass
 
                 # Old code
-                adjText = originalText
+                adjText = originalText.replace( '\\+', '\\' ) # char fields can be nested in each other
                 haveOpenChar = False
                 for charMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "handleInternalTextMarkersForUSFX", charMarker )
@@ -5014,6 +5014,7 @@ class BibleWriter( InternalBible ):
                 if '<<' in adjText or '>>' in adjText:
                     logger.warning( _("toOSIS: Unexpected double angle brackets in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
                     adjText = adjText.replace('<<','“' ).replace('>>','”' )
+                adjText = adjText.replace( '\\+', '\\' ) # Nested markers become nested fields
                 if '\\bk ' in adjText: adjText = checkOSISTextHelper('bk',adjText).replace('\\bk ','<reference type="x-bookName">').replace('\\bk*','</reference>')
                 if '\\ior ' in adjText: adjText = checkOSISTextHelper('ior',adjText).replace('\\ior ','<reference>').replace('\\ior*','</reference>')
                 if '\\add ' in adjText: adjText = checkOSISTextHelper('add',adjText).replace('\\add ','<transChange type="added">').replace('\\add*','</transChange>')
@@ -5770,6 +5771,7 @@ class BibleWriter( InternalBible ):
                 if '<<' in adjText or '>>' in adjText:
                     logger.warning( _("toZefania: Unexpected double angle brackets in {}: {!r} field is {!r}").format( toZefGlobals['verseRef'], marker, textToCheck ) )
                     adjText = adjText.replace('<<','“' ).replace('>>','”' )
+                adjText = adjText.replace( '\\+', '\\' ) # Nested markers become nested fields
                 #if '\\bk ' in adjText: adjText = checkZefaniaTextHelper('bk',adjText).replace('\\bk ','<reference type="x-bookName">').replace('\\bk*','</reference>')
                 #if '\\ior ' in adjText: adjText = checkZefaniaTextHelper('ior',adjText).replace('\\ior ','<reference>').replace('\\ior*','</reference>')
                 if '\\add ' in adjText: adjText = checkZefaniaTextHelper('add',adjText).replace('\\add ','<STYLE fs="italic">').replace('\\add*','</STYLE>') # ???
-- 
2.43.0


From 4010d3cee87e511a32e1d51e78b80cee63a3b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 062/151] fix: OSIS export left character markers without an
 OSIS field as raw backslash codes

---
 BibleOrgSys/BibleWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b0aba3b..cc3beed 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5035,6 +5035,9 @@ class BibleWriter( InternalBible ):
                         adjText = adjText[:ix1] + adjText[ix2+5:] # Remove the \\fig..\\fig* field
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "now {!r}".format( adjText ) )
                         logger.warning( _("toOSIS: Figure reference removed for OSIS generation in {}: {!r} field").format( toOSISGlobals['verseRef'], marker ) )
+                if '\\' in adjText:
+                    for charMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # These ones don't have their own field in OSIS
+                        if f'\\{charMarker} ' in adjText: adjText = checkOSISTextHelper(charMarker,adjText).replace(f'\\{charMarker} ',f'<seg type="x-{charMarker}">').replace(f'\\{charMarker}*','</seg>')
                 if checkLeftovers and '\\' in adjText:
                     logger.error( _("toOSIS: We still have some unprocessed backslashes for OSIS in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("toOSIS: We still have some unprocessed backslashes for OSIS in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
-- 
2.43.0


From a21cee30603badcabda3301a9296f17a1d010825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 063/151] fix: OSIS export dropped note texts which couldn't be
 parsed as references

---
 BibleOrgSys/BibleWriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index cc3beed..159b112 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5100,14 +5100,16 @@ class BibleWriter( InternalBible ):
                                 OSISxref += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,token[3:])
                                 if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
                                     logger.error( _("toOSIS: Cross-reference at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
+                            else: OSISxref += token[3:] # Can't make a reference from it but don't lose the text
                         elif lcToken.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
                             osisRef = BRL.parseToOSIS( xrefText, toOSISGlobals['verseRef'] )
                             if osisRef is not None:
                                 OSISxref += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,xrefText+finalPunct)
+                            else: OSISxref += xrefText+finalPunct # Can't make a reference from it but don't lose the text
                         elif lcToken.startswith('x '): # another whole xref entry follows
                             rest = token[2:].strip()
                             if rest != '+':
@@ -5146,6 +5148,7 @@ class BibleWriter( InternalBible ):
                                 OSISfootnote += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,token[3:])
                                 if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
                                     logger.error( _("toOSIS: Footnote at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
+                            else: OSISfootnote += token[3:] # Can't make a reference from it but don't lose the text
                         elif lcToken.startswith('ft ') or lcToken.startswith('fr* '): # footnote text follows
                             OSISfootnote += token[3:]
                         elif lcToken.startswith('fq ') or token.startswith('fqa '): # footnote quote follows — NOTE: We also assume here that the next marker closes the fq field
-- 
2.43.0


From 5d1f31a1aeb337efd2c022dfc9306c9a827bfa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 064/151] fix: Zefania export dropped the punctuation that ends
 cross-references

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 159b112..bd985c2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5878,11 +5878,11 @@ class BibleWriter( InternalBible ):
                         elif lcToken.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
                             #osisRef = BRL.parseToOSIS( xrefText, toZefGlobals['verseRef'] )
                             if not ZefXref: ZefXref = '<XREF>'
-                            ZefXref += xrefText
+                            ZefXref += xrefText+finalPunct # (could be the end of a character entity)
                         elif lcToken.startswith('x '): # another whole xref entry follows
                             rest = token[2:].strip()
                             if rest != '+':
-- 
2.43.0


From 7e75ef9c634503fc48a5399096e20e9f660e15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 065/151] fix: OSIS and Zefania exports had raw vp codes in the
 verse text

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index bd985c2..c284dd3 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5196,7 +5196,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = '' # temp
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # Already handled by the vp# line
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
@@ -5987,7 +5987,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = '' # temp
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # Already handled by the vp# line
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
-- 
2.43.0


From 35227d3d0551419ef9f40972132e12b6068ded05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 066/151] fix: OSIS export closed a line group with a line
 still open

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c284dd3..1c36946 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5308,7 +5308,7 @@ class BibleWriter( InternalBible ):
             # end of toOSISXML.closeAnyOpenParagraph
 
             def closeAnyOpenLG():
-                """ Close a <lg> if it's open. """
+                """ Close a <lg> if it's open (and any <l> that's still open inside it). """
                 nonlocal haveOpenLG
                 if haveOpenLG:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "closeAnyOpenLG", toOSISGlobals['verseRef'] )
@@ -6767,6 +6767,7 @@ class BibleWriter( InternalBible ):
             def closeAnyOpenLG():
                 """ Close a <lg> if it's open. """
                 nonlocal haveOpenLG
+                closeAnyOpenL()
                 if haveOpenLG:
                     writerObject.writeLineClose( 'lg' )
                     haveOpenLG = False
-- 
2.43.0


From 7adc6c109a5a8c167492bfd83b7748882176cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 067/151] fix: OSIS export left lists, outlines and
 introductions open

---
 BibleOrgSys/BibleWriter.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 1c36946..4a8ea4e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5364,6 +5364,10 @@ class BibleWriter( InternalBible ):
                     if not haveOpenIntro:
                         writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
                         haveOpenIntro = True
+                    if haveOpenOutline: # It's finished now
+                        writerObject.writeLineClose( 'list' )
+                        writerObject.writeLineClose( 'div' )
+                        haveOpenOutline = False
                     if text: writerObject.writeLineOpenClose( 'title', checkOSISText(text),('level',marker[-1]) ) # Introduction heading
                     logger.error( _("toOSIS: {} Have a blank {} field—ignoring it").format( toOSISGlobals['verseRef'], marker ) )
                 elif marker=='ip':
@@ -5371,6 +5375,10 @@ class BibleWriter( InternalBible ):
                         logger.error( _("toOSIS: {} Have an ip not in an introduction section—ignoring it").format( toOSISGlobals['verseRef'] ) )
                         writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
                         haveOpenIntro = True
+                    if haveOpenOutline: # It's finished now
+                        writerObject.writeLineClose( 'list' )
+                        writerObject.writeLineClose( 'div' )
+                        haveOpenOutline = False
                     closeAnyOpenParagraph()
                     writerObject.writeLineOpenText( 'p', checkOSISText(text), noTextCheck=True ) # Sometimes there's text
                     haveOpenParagraph = True
@@ -5549,7 +5557,18 @@ class BibleWriter( InternalBible ):
             if haveOpenVsID != False: # Close the last verse
                 writerObject.writeLineOpenSelfclose( 'verse', ('eID',haveOpenVsID) )
                 haveOpenVsID = False
+            if haveOpenList: # A file can also end with a li1 field
+                writerObject.writeLineClose( 'list' )
+                haveOpenList = False
             closeAnyOpenLG() # A file can easily end with a q1 field
+            if haveOpenOutline: # There were no chapters
+                writerObject.writeLineClose( 'list' )
+                writerObject.writeLineClose( 'div' )
+                haveOpenOutline = False
+            if haveOpenIntro:
+                closeAnyOpenParagraph()
+                writerObject.writeLineClose( 'div' )
+                haveOpenIntro = False
             if haveOpenIntro or haveOpenOutline or haveOpenLG or haveOpenL or unprocessedMarker:
                 logger.error( "toOSIS: a {} {} {} {} {}".format( haveOpenIntro, haveOpenOutline, haveOpenLG, haveOpenL, unprocessedMarker ) )
                 logger.error( "toOSIS: b {} {}:{}".format( BBB, currentChapterNumberString, verseNumberString ) )
-- 
2.43.0


From bb6dfa89b98c309bfe7754af3b41fdb0a7dc8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 068/151] fix: OSIS and Sword exports closed a line group with
 a line still open (OSIS part)

---
 BibleOrgSys/BibleWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 4a8ea4e..0eb49e2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5310,6 +5310,7 @@ class BibleWriter( InternalBible ):
             def closeAnyOpenLG():
                 """ Close a <lg> if it's open (and any <l> that's still open inside it). """
                 nonlocal haveOpenLG
+                closeAnyOpenL()
                 if haveOpenLG:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "closeAnyOpenLG", toOSISGlobals['verseRef'] )
                     writerObject.writeLineClose( 'lg' )
-- 
2.43.0


From 8914b3b935a98d133c552d41871e4c13f565b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 069/151] fix: USX export left a paragraph open at the end of
 the book

---
 BibleOrgSys/Formats/USXXMLBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 4f08d84..4c1d164 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -1047,8 +1047,9 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     xw.writeLineClose( 'para' )
                     haveOpenPara = False
                 xw.writeLineOpenClose( 'para', _handleInternalTextMarkersForUSX(adjText), ('style',originalMarker if originalMarker else marker), noTextCheck=True ) # no checks coz might already have embedded XML
-        # assert not haveOpenPara, f"toUSXXML.writeUSXBook ended with haveOpenPara at end of {BBB}"
-        if haveOpenPara: logging.critical( f"toUSXXML.writeUSXBook ended with haveOpenPara at end of {BBB} -- output file may not be valid XML!" )
+        if haveOpenPara: # e.g., an empty paragraph at the end of the book
+            xw.removeFinalNewline( suppressFollowingIndent=True )
+            xw.writeLineClose( 'para' )
         xw.writeLineClose( 'usx' )
         xw.removeFinalNewline()
         xw.close( writeFinalNL=False ) # Try to imitate Paratext output as closely as possible
-- 
2.43.0


From 1f9069d2846460f7b4893cd5f25b9b269e1e4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 070/151] fix: Zefania and Haggai exports lost the number of
 verses whose text only starts after a paragraph marker

---
 BibleOrgSys/BibleWriter.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 0eb49e2..095f4c5 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6023,7 +6023,7 @@ class BibleWriter( InternalBible ):
 
             # Main code for toZefaniaXML.writeZefBook
             writerObject.writeLineOpen( 'BIBLEBOOK', [('bnumber',BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber(BBB)), ('bname',BibleOrgSysGlobals.loadedBibleBooksCodes.getEnglishName_NR(BBB)), ('bsname',OSISAbbrev)] )
-            haveOpenChapter, gotVP = False, None
+            haveOpenChapter, gotVP, haveVerseNumberToWrite = False, None, False
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 haveNotesFlag = False
@@ -6059,6 +6059,7 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toZefania: Missing text for v" ); continue
                     verseNumberString, endVerseNumberString = handleVerseNumber( BBB, C, V, text )
+                    haveVerseNumberToWrite = True
                     #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
 
                 elif marker in ('mt1','mt2','mt3','mt4', 'mte1','mte2','mte3','mte4', 'ms1','ms2','ms3','ms4',) \
@@ -6088,6 +6089,7 @@ class BibleWriter( InternalBible ):
                     writerObject.writeLineOpenClose ( 'VERS', text,
                             ('vnumber',verseNumberString) if endVerseNumberString is None else [('vnumber',verseNumberString),('enumber',endVerseNumberString)],
                             noTextCheck=haveEmbeddedStylesFlag )
+                    haveVerseNumberToWrite = False
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     text = processZefXRefsAndFootnotes( text, extras )
@@ -6097,7 +6099,11 @@ class BibleWriter( InternalBible ):
                         #assert '\\' not in text
                     if text:
                         haveEmbeddedStylesFlag = '<NOTE' in text or '<XREF' in text or '<STYLE' in text
-                        writerObject.writeLineOpenClose ( 'VERS', text, noTextCheck=haveEmbeddedStylesFlag )
+                        attribInfo = None
+                        if haveVerseNumberToWrite: # The verse only starts here, i.e., there was no text directly after the verse number
+                            attribInfo = ('vnumber',verseNumberString) if endVerseNumberString is None else [('vnumber',verseNumberString),('enumber',endVerseNumberString)]
+                            haveVerseNumberToWrite = False
+                        writerObject.writeLineOpenClose ( 'VERS', text, attribInfo, noTextCheck=haveEmbeddedStylesFlag )
                 else:
                     if text:
                         logger.error( "toZefania: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
@@ -6224,7 +6230,7 @@ class BibleWriter( InternalBible ):
                 unhandledBooks.append( BBB )
                 return
             writerObject.writeLineOpen( 'BIBLEBOOK', [('bnumber',BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber(BBB)), ('bname',BibleOrgSysGlobals.loadedBibleBooksCodes.getEnglishName_NR(BBB)), ('bsname',OSISAbbrev)] )
-            haveOpenChapter = haveOpenParagraph = False
+            haveOpenChapter = haveOpenParagraph = haveVerseNumberToWrite = False
             gotVP = None
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
@@ -6260,6 +6266,7 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toHaggaiXML: Missing text for v" ); continue
                     verseNumberString = text.replace('<','').replace('>','').replace('"','') # Used below but remove anything that'll cause a big XML problem later
+                    haveVerseNumberToWrite = True
                     #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
 
                 elif marker in ('p', 'pi1','pi2','pi3','pi4', ):
@@ -6285,10 +6292,13 @@ class BibleWriter( InternalBible ):
                     if not text: # this is an empty (untranslated) verse
                         text = '- - -' # but we'll put in a filler
                     writerObject.writeLineOpenClose ( 'VERSE', text, ('vnumber',verseNumberString) )
+                    haveVerseNumberToWrite = False
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
-                    if text: writerObject.writeLineOpenClose ( 'VERSE', text )
+                    if text: # The verse only starts here if there was no text directly after the verse number
+                        writerObject.writeLineOpenClose ( 'VERSE', text, ('vnumber',verseNumberString) if haveVerseNumberToWrite else None )
+                        haveVerseNumberToWrite = False
                 else:
                     if text:
                         logger.error( "toHaggai: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
-- 
2.43.0


From acc8440e50b5b2c74cc2a0f6db78ab0109451a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 071/151] fix: HaggaiXMLBible: keep the ends of verse bridges

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b9e4cf3..76eb63a 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -604,8 +604,11 @@ class HaggaiXMLBible( Bible ):
         for attrib,value in verse.items():
             if attrib=="vnumber":
                 verseNumber = value
+            elif attrib=="enumber":
+                toVerseNumber = value
             else: logging.warning( "Unprocessed {!r} attribute ({}) in verse element".format( attrib, value ) )
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
+        if toVerseNumber and toVerseNumber != verseNumber: verseNumber = f'{verseNumber}-{toVerseNumber}' # It's a verse bridge
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
         vText = '' if verse.text is None else verse.text
-- 
2.43.0


From 14767b76d889f3fde73b0bdaf509082658c4e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 072/151] fix: HaggaiXMLBible: keep the spaces around styled
 texts

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index 76eb63a..e146812 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -612,7 +612,7 @@ class HaggaiXMLBible( Bible ):
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
         vText = '' if verse.text is None else verse.text
-        if vText: vText = vText.strip()
+        if vText: vText = vText.lstrip() # but any space before a style or a note is significant
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -688,7 +688,7 @@ class HaggaiXMLBible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
                 else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                if sTail: vText += sTail.strip()
+                if sTail: vText += sTail.replace( '\n', ' ' )
 
             elif subelement.tag == HaggaiXMLBible.breakTag:
                 sublocation = "line break in " + location
-- 
2.43.0


From 6806a4d7669d71d6a2df10ad99759eccd3a23c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 073/151] fix: HaggaiXMLBible: handle line breaks in verses
 with further parts

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index e146812..aac576b 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -616,6 +616,7 @@ class HaggaiXMLBible( Bible ):
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
+        haveVerseLine = False # Set to True once the verse number has been saved (so then any further text follows a line break)
         # Handle verse subelements (notes and styled portions)
         for subelement in verse:
             if subelement.tag == HaggaiXMLBible.noteTag:
@@ -702,19 +703,22 @@ class HaggaiXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
-                    vText = ''
-                thisBook.addLine( 'm', subelement.tail.strip() if subelement.tail else '' )
-                #bTail = subelement.tail
-                #if bTail: vText = bTail.strip()
+                if vText or haveVerseLine:
+                    vText = vText.replace( '\n', ' ' ).rstrip()
+                    if haveVerseLine: thisBook.addLine( 'm', vText )
+                    else: thisBook.addLine( 'v', verseNumber + ' ' + vText )
+                    haveVerseLine = True
+                else: thisBook.addLine( 'm', '' ) # The verse starts on a new line
+                vText = subelement.tail.lstrip() if subelement.tail else '' # Which might be followed by more subelements
             else: logging.error( "Expected to find NOTE or STYLE but got {!r} in {}".format( subelement.tag, location ) )
 
-        if vText: # This is the main text of the verse (follows the verse milestone)
+        if vText or haveVerseLine: # This is the main text of the verse (follows the verse milestone)
+            vText = vText.rstrip()
             if '\n' in vText:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+            if haveVerseLine: thisBook.addLine( 'm', vText )
+            else: thisBook.addLine( 'v', verseNumber + ' ' + vText )
     # end of HaggaiXMLBible.__validateAndExtractVerse
 # end of HaggaiXMLBible class
 
-- 
2.43.0


From fc9a212978147d6b00ee73470770993a80726fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 074/151] fix: OpenSongXMLBible: keep the ends of verse bridges

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 99ebc17..e61d88d 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -529,6 +529,7 @@ class OpenSongXMLBible( Bible ):
                         toVerseNumber = value
                     else: logging.warning( "Unprocessed {!r} attribute ({}) in verse element".format( attrib, value ) )
                 if BibleOrgSysGlobals.debugFlag: assert verseNumber
+                if toVerseNumber and toVerseNumber != verseNumber: verseNumber = f'{verseNumber}-{toVerseNumber}' # It's a verse bridge
                 #thisBook.addLine( 'v', verseNumber )
                 vText = element.text if element.text else ''
                 for subelement in element:
-- 
2.43.0


From 69c3e3371994ecc55520247cb1a2cc13d561a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 075/151] fix: OpenSongXMLBible: italics without text or
 following text aren't the text None

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index e61d88d..f818ed3 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -537,7 +537,7 @@ class OpenSongXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location, 'ks03' )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sub2location, 'ks05' )
                     if subelement.tag == 'i':
-                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail )
+                        vText += '\\it {}\\it*{}'.format( subelement.text or '', subelement.tail or '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
                 vText += element.tail if element.tail else ''
                 if not vText:
-- 
2.43.0


From 6413f25f447d13f31380a4ca3e0582f6671a2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 076/151] fix: OpenSongXMLBible: white space between verse
 elements doesn't make verses poetry

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index f818ed3..a7781f7 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -539,7 +539,6 @@ class OpenSongXMLBible( Bible ):
                     if subelement.tag == 'i':
                         vText += '\\it {}\\it*{}'.format( subelement.text or '', subelement.tail or '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
-                vText += element.tail if element.tail else ''
                 if not vText:
                     logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'vText1', vText )
-- 
2.43.0


From 41975e7c930b337641d41ed870ecc31fce3b4e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 077/151] fix: USFXXMLBible: recognise files which only have
 two lines

---
 BibleOrgSys/Formats/USFXXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 07411b3..5600fd2 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -130,7 +130,7 @@ def USFXXMLBibleFileCheck( sourceFolder, strictCheck:bool=True, autoLoad:bool=Fa
     lastFilenameFound = None
     for thisFilename in sorted( foundFiles ):
         if strictCheck or BibleOrgSysGlobals.strictCheckingFlag:
-            firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, sourceFolder, numLines=3 )
+            firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, sourceFolder, numLines=2 )
             if not firstLines or len(firstLines)<2: continue
             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
@@ -262,7 +262,7 @@ class USFXXMLBible( Bible ):
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.sourceFolder, foundFolders, len(foundFiles), foundFiles )
         numFound = 0
         for thisFilename in sorted( foundFiles ):
-            firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, sourceFolder, numLines=3 )
+            firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, sourceFolder, numLines=2 )
             if not firstLines or len(firstLines)<2: continue
             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-- 
2.43.0


From 4f5fd05bf43227a749cd69c2c85f807e974c09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 078/151] fix: USFXXMLBible: elements without text aren't the
 text None

---
 BibleOrgSys/Formats/USFXXMLBible.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 5600fd2..2413f52 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -656,7 +656,7 @@ class USFXXMLBible( Bible ):
                         logging.warning( _("sh29 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 if sfm not in ('w','ior',): vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "cs sfm got", repr(sfm) )
-                self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( sfm, text, sfm, (' '+tail) if tail else '' ) )
+                self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( sfm, text or '', sfm, (' '+tail) if tail else '' ) )
             elif element.tag in ('cp',): # Simple single-line paragraph-level markers
                 marker, text = element.tag, clean(element.text)
                 BibleOrgSysGlobals.checkXMLNoTail( element, location, 'kdf0' )
@@ -703,7 +703,7 @@ class USFXXMLBible( Bible ):
                     else:
                         logging.warning( _("gcd2 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-                self.thisBook.appendToLastLine( ' \\{} {}\\{}* {}'.format( sfm, text, sfm, tail ) )
+                self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( sfm, text or '', sfm, (' '+tail) if tail else '' ) )
                 logging.error( "What should we do with the gw root value: {!r} ?".format( root ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             elif element.tag == 'xt' and BBB == 'GLS':
@@ -736,7 +736,7 @@ class USFXXMLBible( Bible ):
         if strongs:
             assert marker == 'w'
             self.thisBook.appendToLastLine( ' \\str {}\\str*'.format( strongs ) )
-        self.thisBook.appendToLastLine( ' {}'.format( text ) )
+        self.thisBook.appendToLastLine( ' {}'.format( text or '' ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "element", repr(element.tag) )
@@ -754,7 +754,7 @@ class USFXXMLBible( Bible ):
         """
         marker, text, tail = element.tag, clean(element.text), clean(element.tail)
         BibleOrgSysGlobals.checkXMLNoAttributes( element, location, 'cb25' )
-        self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, text ) )
+        self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, text or '' ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "element", repr(element.tag) )
@@ -837,7 +837,7 @@ class USFXXMLBible( Bible ):
                             BibleOrgSysGlobals.checkXMLNoTail( sub4element, sub4location, 'fo20' )
                             BibleOrgSysGlobals.checkXMLNoAttributes( sub4element, sub4location, 'ls42' )
                             BibleOrgSysGlobals.checkXMLNoSubelements( sub4element, sub4location, 'vl35' )
-                    self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, text ) )
+                    self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, text or '' ) )
             else:
                 logging.warning( _("kv64 Unprocessed {} element after {} {}:{} in {}").format( subelement.tag, BBB, C, V, sublocation ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
@@ -883,7 +883,7 @@ class USFXXMLBible( Bible ):
                 self.loadWordFormatting( subelement, sublocation, BBB, C, V )
             else:
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'dq54' )
-                self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, fText ) )
+                self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, fText or '' ) )
                 if marker=='xt' or marker[0]=='f': # Starts with f, e.g., fr, ft
                     for sub2element in subelement:
                         sub2location = sub2element.tag + " of " + sublocation
@@ -960,7 +960,7 @@ class USFXXMLBible( Bible ):
                 else: halt
             else: # xo or xt
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'sc35' )
-                self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, xText ) )
+                self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, xText or '' ) )
                 if marker[0] == 'x': # Starts with x, e.g., xo, xt
                     for sub2element in subelement:
                         sub2location = sub2element.tag + " of " + sublocation
-- 
2.43.0


From a17580d6f99efa100959dc39d3eb75c7e7e3fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 079/151] fix: USXXMLBibleBook: put character fields in table
 cells into the table row

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 1fa408e..11fc480 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -701,8 +701,7 @@ class USXXMLBibleBook( BibleBook ):
                                         BibleOrgSysGlobals.checkXMLNoText( sub3element, sub3location, 'TY47' )
                                         loadVerseNumberField( sub3element, sub3location )
                                     elif sub3element.tag == 'char': # Have formatting inside a table
-                                        charLine = loadCharField( sub3element, sub3location )
-                                        self.appendToLastLine( charLine )
+                                        tableCode += loadCharField( sub3element, sub3location )
                                     else:
                                         logging.error( _("KA29 Unprocessed {} sub3element after {} {}:{} in {}").format( sub3element.tag, self.BBB, C, V, sub3location ) )
                                         self.addPriorityError( 1, C, V, _("Unprocessed {} sub3element").format( sub3element.tag ) )
-- 
2.43.0


From 6374887695b3a180da829af57da25578bdbb68af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 080/151] fix: ZefaniaXMLBible: keep the ends of verse bridges

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 5487bf8..cfcceed 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -595,8 +595,11 @@ class ZefaniaXMLBible( Bible ):
         for attrib,value in verse.items():
             if attrib == 'vnumber':
                 verseNumber = value
+            elif attrib == 'enumber':
+                toVerseNumber = value
             else: logging.warning( "Unprocessed {!r} attribute ({}) in verse element".format( attrib, value ) )
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
+        if toVerseNumber and toVerseNumber != verseNumber: verseNumber = f'{verseNumber}-{toVerseNumber}' # It's a verse bridge
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
         vText = verse.text
-- 
2.43.0


From 250451789d3be0b02908b4711e5d07c03f276889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 081/151] fix: ZefaniaXMLBible: verses may start with a style,
 note or line break

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index cfcceed..ab827a6 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -602,8 +602,7 @@ class ZefaniaXMLBible( Bible ):
         if toVerseNumber and toVerseNumber != verseNumber: verseNumber = f'{verseNumber}-{toVerseNumber}' # It's a verse bridge
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
-        vText = verse.text
-        if vText: vText = vText.strip('\n')
+        vText = verse.text.strip('\n') if verse.text else ''
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
-- 
2.43.0


From 18b2926c304711298f3906874212264e3afa58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 082/151] fix: ZefaniaXMLBible: keep the text after a note in
 its place in the verse

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index ab827a6..60f1d66 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -627,7 +627,7 @@ class ZefaniaXMLBible( Bible ):
                         if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
                         nTail = nTail.replace( '\n', ' ' )
-                    thisBook.addLine( 'v~', nTail )
+                    vText += nTail
                 for sub2element in subelement:
                     if sub2element.tag == STYLE_TAG:
                         sub2location = "style in " + sublocation
-- 
2.43.0


From aa8b8e91c532f4e17964557a91c8cb8b97636fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 083/151] fix: ZefaniaXMLBible: handle line breaks in verses
 with further parts

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 60f1d66..f47b7e4 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -606,6 +606,7 @@ class ZefaniaXMLBible( Bible ):
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
+        haveVerseLine = False # Set to True once the verse number has been saved (so then any further text follows a line break)
         # Handle verse subelements (notes and styled portions)
         for subelement in verse:
             if subelement.tag == NOTE_TAG:
@@ -706,17 +707,19 @@ class ZefaniaXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
+                if vText or haveVerseLine:
                     if '\n' in vText:
                         logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                         vText = vText.replace( '\n', ' ' )
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText )
-                    vText = ''
+                    if haveVerseLine: thisBook.addLine( 'm', vText )
+                    else: thisBook.addLine( 'v', verseNumber + ' ' + vText )
+                    haveVerseLine = True
+                else: thisBook.addLine( 'm', '' ) # The verse starts on a new line
                 breakText = subelement.tail.strip('\n') if subelement.tail else ''
                 if '\n' in breakText:
                     logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse: newline in breakText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, breakText ) )
                     breakText = breakText.replace( '\n', ' ' )
-                thisBook.addLine( 'm', breakText )
+                vText = breakText # Which might be followed by more subelements
 
             elif subelement.tag == DIV_TAG:
                 sublocation = "div break in " + location
@@ -749,11 +752,12 @@ class ZefaniaXMLBible( Bible ):
 
             else: logging.error( "Expected to find NOTE or STYLE or BREAK or DIV but got {!r} in {}".format( subelement.tag, location ) )
 
-        if vText: # This is the main text of the verse (follows the verse milestone)
+        if vText or haveVerseLine: # This is the main text of the verse (follows the verse milestone)
             if '\n' in vText:
                 logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_b: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText )
+            if haveVerseLine: thisBook.addLine( 'm', vText )
+            else: thisBook.addLine( 'v', verseNumber + ' ' + vText )
     # end of ZefaniaXMLBible.__validateAndExtractVerse
 # end of ZefaniaXMLBible class
 
-- 
2.43.0


From 15ecf591f737d71eee9e9ec1e9348966e7641fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:17 +0000
Subject: [PATCH 084/151] fix: HaggaiXMLBible: styles without text don't stop
 the loading

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index aac576b..1223215 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -684,7 +684,7 @@ class HaggaiXMLBible( Bible ):
                 #elif css == "font-size: x-small; color:#8B8378": SFM = '\\add'
                 #elif css is None and idStyle=='cl:divineName': SFM = '\\nd'
                 #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "css is", css, "idStyle is", idStyle ); halt
-                sText, sTail = subelement.text.strip(), subelement.tail
+                sText, sTail = (subelement.text or '').strip(), subelement.tail
                 if BibleOrgSysGlobals.debugFlag: assert sText
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
-- 
2.43.0


From c5f5595185880225eb33c42ed8155452a50de0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 085/151] fix: theWord (and MySword): keep the text after a
 cross-reference

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 2b84c5e..cb4b8f3 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -426,7 +426,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             assert ixEnd != -1
             xrList = line[ixXT+4:ixEnd].strip().split(';')
             newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
+            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
         else:
             logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
-- 
2.43.0


From 9b3520bd19d2de3cab3f22bbd05ae6fb812d012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 086/151] fix: e-Sword: write the verse before a missing verse

---
 BibleOrgSys/Formats/ESwordBible.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index cbc3521..79a534b 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1510,12 +1510,12 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toESword: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
-- 
2.43.0


From 6ce4608c1503a5d7228ceab514edddc3b7913126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 087/151] fix: MyBible: write the verse before a missing verse

---
 BibleOrgSys/Formats/MyBibleBible.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..c0688b1 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1141,16 +1141,16 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toMyBible: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            try:
-                                sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            except Exception as e:
-                                logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
-                                raise e # again
-                            #lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        try:
+                            sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        except Exception as e:
+                            logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
+                            raise e # again
+                        #lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
-- 
2.43.0


From 8c0f4aec59bd80924ff77ecf1b69b5c913313a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 088/151] fix: theWord, MySword, e-Sword and MyBible: a space
 between continued paragraphs

---
 BibleOrgSys/Formats/ESwordBible.py  | 3 ++-
 BibleOrgSys/Formats/MyBibleBible.py | 3 ++-
 BibleOrgSys/Formats/theWordBible.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 79a534b..65987ce 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1424,7 +1424,8 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lastMarker )
                 if lastMarker == 'p': composedLine += '~^~line ' # We had a continuation paragraph
                 elif lastMarker == 'm': composedLine += '~^~line ' # We had a continuation paragraph
-                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers: pass # Did we need to do anything here???
+                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers:
+                    if composedLine and not composedLine.endswith( (' ','>') ): composedLine += ' ' # Don't run the words together
                 elif lastMarker != 'v':
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, lastMarker, verseData )
                     composedLine += adjustLine(BBB,C,V, text )
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index c0688b1..57737f9 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1068,7 +1068,8 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lastMarker )
                 if lastMarker == 'p': composedLine += '<pb/>' # We had a continuation paragraph
                 elif lastMarker == 'm': composedLine += '<br/>' # We had a continuation paragraph
-                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers: pass # Did we need to do anything here???
+                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers:
+                    if composedLine and not composedLine.endswith( (' ','>') ): composedLine += ' ' # Don't run the words together
                 elif lastMarker != 'v':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, lastMarker, verseData )
                     composedLine += adjustLine(BBB,C,V, text )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index cb4b8f3..29ef090 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1133,7 +1133,8 @@ def theWordComposeVerseLine( BBB:str, C:str, V:str, verseData, ourGlobals ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lastMarker )
             if lastMarker == 'p': composedLine += '<CM>' # We had a continuation paragraph
             elif lastMarker == 'm': composedLine += '<CL>' # We had a continuation paragraph
-            elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers: pass # Did we need to do anything here???
+            elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers:
+                if composedLine and not composedLine.endswith( (' ','>') ): composedLine += ' ' # Don't run the words together
             elif lastMarker != 'v':
                 composedLine += theWordAdjustLine( BBB,C,V, text )
                 if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
-- 
2.43.0


From c437e498ecfb5849b7f5908c210dd227c858537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 089/151] fix: theWord, MySword, e-Sword and MyBible: JN3 1:15
 and REV 12:18 without the verse before and in bridges

---
 BibleOrgSys/Formats/ESwordBible.py  | 6 ++++--
 BibleOrgSys/Formats/MyBibleBible.py | 6 ++++--
 BibleOrgSys/Formats/MySwordBible.py | 6 ++++--
 BibleOrgSys/Formats/theWordBible.py | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 65987ce..70bae63 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1497,13 +1497,15 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         try:
                             result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if not verseData: verseData = verseData15
+                            elif verseData15[0] is not verseData[0]: verseData.extend( verseData15 ) # but not if it's a verse bridge
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
                             result18 = bkData.getContextVerseData( ('REV','12','18',) )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if not verseData: verseData = verseData18
+                            elif verseData18[0] is not verseData[0]: verseData.extend( verseData18 ) # but not if it's a verse bridge
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 57737f9..4eec53f 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1128,13 +1128,15 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         try:
                             result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if not verseData: verseData = verseData15
+                            elif verseData15[0] is not verseData[0]: verseData.extend( verseData15 ) # but not if it's a verse bridge
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
                             result18 = bkData.getContextVerseData( ('REV','12','18',) )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if not verseData: verseData = verseData18
+                            elif verseData18[0] is not verseData[0]: verseData.extend( verseData18 ) # but not if it's a verse bridge
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 3566b7f..8a83041 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -500,13 +500,15 @@ def createMySwordModule( self, outputFolder, controlDict ):
                         try:
                             result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if not verseData: verseData = verseData15
+                            elif verseData15[0] is not verseData[0]: verseData.extend( verseData15 ) # but not if it's a verse bridge
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
                             result18 = bkData.getContextVerseData( ('REV','12','18',) )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if not verseData: verseData = verseData18
+                            elif verseData18[0] is not verseData[0]: verseData.extend( verseData18 ) # but not if it's a verse bridge
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData: composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 29ef090..acf5f48 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1212,13 +1212,15 @@ def createTheWordModule( self, outputFolder, controlDict ):
                     try:
                         result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                         verseData15, context15 = result15
-                        verseData.extend( verseData15 )
+                        if not verseData: verseData = verseData15
+                        elif verseData15[0] is not verseData[0]: verseData.extend( verseData15 ) # but not if it's a verse bridge
                     except KeyError: pass #  just ignore it
                 elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                     try:
                         result18 = bkData.getContextVerseData( ('REV','12','18',) )
                         verseData18, context18 = result18
-                        verseData.extend( verseData18 )
+                        if not verseData: verseData = verseData18
+                        elif verseData18[0] is not verseData[0]: verseData.extend( verseData18 ) # but not if it's a verse bridge
                     except KeyError: pass #  just ignore it
             if verseData: composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
             assert '\n' not in composedLine # This would mess everything up
-- 
2.43.0


From 1be5fd30b8421b314e8872a02a66964ac26ed7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 090/151] fix: theWord, MySword, e-Sword and MyBible: leave no
 number markers in the text

---
 BibleOrgSys/Formats/ESwordBible.py  | 1 +
 BibleOrgSys/Formats/MyBibleBible.py | 2 +-
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 70bae63..39978f6 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1227,6 +1227,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
                 ( ('nd','sc',), '<font size=-1>','</font>' ),
+                ( ('pn','ord','no',), '','' ),
                 )
             line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
             if '\\nd' not in originalLine and '\\+nd' not in originalLine:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 4eec53f..142c7bb 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -864,7 +864,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 ( ('bdit',), '<b><i>','</i></b>' ),
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
-                ( ('nd','sc',), '','' ),
+                ( ('nd','sc','pn','ord','no',), '','' ),
                 #( ('f',), '<n>','</n>' ),
                 ( ('str',), '<S>','</S>' ),
                 )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index acf5f48..90ae819 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -470,7 +470,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             ( ('bd','em','k','w'), '<b>','</b>' ),
             ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
             ( ('nd','sc',), '<font size=-1>','</font>' ),
-            ( ('pn','ord',), '','' ),
+            ( ('pn','ord','no',), '','' ),
             )
         line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
         if '\\nd' not in originalLine and '\\+nd' not in originalLine:
-- 
2.43.0


From 528c0fb38547e45b1c8d3a9f2afc4a882929c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 091/151] fix: theWordBible: load NT modules and the module
 information

---
 BibleOrgSys/Formats/theWordBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 90ae819..d7808e0 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -873,7 +873,7 @@ class theWordBible( Bible ):
             booksExpected, textLineCountExpected = theWordOTBookCount, theWordOTTotalLines
         elif fileExtensionUpper in ('.NT','.NTX',):
             testament, BBB = 'NT', 'MAT'
-            booksExpected, textLineCountExpected = theWordNTBookCount, theWordOTTotalLines
+            booksExpected, textLineCountExpected = theWordNTBookCount, theWordNTTotalLines
 
         # Create the first book
         thisBook = BibleBook( self, BBB )
@@ -927,7 +927,7 @@ class theWordBible( Bible ):
                                     else: logging.warning( "theWordBible.load: Didn't save {} because it was blank".format( BBB ) )
 
                                     bookCount += 1
-                                    if bookCount >= booksExpected: break
+                                    if bookCount >= booksExpected: continue # There can still be module info lines after the verse lines
                                     BBB = BOS.getNextBookCode( BBB )
                                     # Create the next book
                                     thisBook = BibleBook( self, BBB )
-- 
2.43.0


From 4005c8c209cbe0dcddb9ccbfab4714231d29d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 092/151] fix: ESwordBible.load: name the Bible table correctly

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 39978f6..45302b9 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1000,7 +1000,7 @@ class ESwordBible( Bible ):
         continued = ourGlobals['haveParagraph'] = False
         haveLines = False
         while True:
-            self.cursor.execute('select Scripture from BibleOrgSys.Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
+            self.cursor.execute('select Scripture from Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
             try:
                 row = self.cursor.fetchone()
                 line = row[0]
-- 
2.43.0


From 61b718aad538cafcca8197f697e3c502b5b0808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 093/151] fix: ESwordBible: read all Unicode character codes

---
 BibleOrgSys/Formats/ESwordBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 45302b9..8cdde1e 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -239,12 +239,12 @@ def handleRTFLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObject
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, line )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(line) )
     while True: # Find patterns like \\u253?
-        match = re.search( r'\\u[1-2][0-9][0-9]\?', line )
+        match = re.search( r'\\u-?[0-9]{1,5}\?', line )
         if not match: break
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, originalLine )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, line )
         #h1, h2 = line[match.start()+2], line[match.start()+3]
-        i = int( line[match.start()+2:match.end()-1] ) # Convert three digits to decimal
+        i = int( line[match.start()+2:match.end()-1] ) % 65536 # Convert decimal digits (RTF has negative numbers above 32767)
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, h1, h2, i, chr(i) )
         line = line[:match.start()] + chr( i ) + line[match.end():]
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, line )
-- 
2.43.0


From b96f7812f94a8cedb497d4780786a268b687b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 094/151] fix: ESwordBible: no stray asterisk at the end of
 section headings

---
 BibleOrgSys/Formats/ESwordBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 8cdde1e..6cd9911 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -283,8 +283,8 @@ def handleRTFLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObject
     if BibleOrgSysGlobals.debugFlag: savedLine = line
 
     # Try to guess some semantic formatting
-    line = re.sub( r'\\b\\i\\f0 (.+?)\\cf0\\b0\\i0\\line', r'~^~s1 \1*#$#', line ) # section heading
-    line = re.sub( r'\\cf10\\b\\i (.+?)\\cf0\\b0\\i0\\line', r'~^~s1 \1*#$#', line ) # section heading in LEB
+    line = re.sub( r'\\b\\i\\f0 (.+?)\\cf0\\b0\\i0\\line', r'~^~s1 \1#$#', line ) # section heading
+    line = re.sub( r'\\cf10\\b\\i (.+?)\\cf0\\b0\\i0\\line', r'~^~s1 \1#$#', line ) # section heading in LEB
     line = re.sub( r'\\cf14 (.+?)\\cf0', r'~^~add \1~^~add*', line )
     line = re.sub( r'\\cf15\\i (.+?)\\cf0\\i0', r'~^~add \1~^~add*', line )
     line = re.sub( r'\\cf15\\i(.+?)\\cf0\\i0 ', r'~^~add \1~^~add*', line ) # LEB (error???)
-- 
2.43.0


From 6a1dfa3c3c58adc9561056c283ec6d1661a4eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 095/151] fix: ESwordBible: handle \par at the end of a row

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 6cd9911..daf60fd 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -316,7 +316,7 @@ def handleRTFLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObject
 
     line = line.replace( '\\par\\par', '\\par' )
     #line = line.replace( '\\par', '#$#~^~p' ) # Hits \\pard wrongly
-    line = re.sub( r'\\par([^d])', r'#$#~^~p\1', line )
+    line = re.sub( r'\\par(?!d) ?', '#$#~^~p ', line )
     line = line.replace( '\\m ', '#$#~^~m ' )
 
     # Handle module formatting errors -- formatting that goes across verses!
-- 
2.43.0


From 13343a6bbca9f65722901b278d2b26b9651a03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 096/151] fix: theWordBible, ESwordBible: keep segments which
 start with character formatting

---
 BibleOrgSys/Formats/ESwordBible.py  | 8 ++++----
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index daf60fd..32b4caa 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -380,9 +380,9 @@ def handleRTFLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObject
                             assert marker in ('mt1','mt2','mt3', 's1','s2','s3', 'p', 'q1','q2','q3', 'm', 'r', 'b',)
                         bookObject.addLine( marker, bits[1] )
                     elif not writtenV:
-                        bookObject.addLine( 'v', '{} \\{} {}'.format( V, marker, segment ) )
+                        bookObject.addLine( 'v', '{} {}'.format( V, segment ) )
                         writtenV = True
-                    else: leftovers += '\\{} {}'.format( marker, segment )
+                    else: bookObject.addLine( 'v~', segment )
             else: # What is segment is blank (\\NL* at end of line)???
                 if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
                 if not writtenV:
@@ -478,9 +478,9 @@ def handleHTMLLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObjec
                             assert marker in ('mt1','mt2','mt3', 's1','s2','s3', 'p', 'q1','q2','q3', 'm', 'r', 'b',)
                         bookObject.addLine( marker, bits[1] )
                     elif not writtenV:
-                        bookObject.addLine( 'v', '{} \\{} {}'.format( V, marker, segment ) )
+                        bookObject.addLine( 'v', '{} {}'.format( V, segment ) )
                         writtenV = True
-                    else: leftovers += '\\{} {}'.format( marker, segment )
+                    else: bookObject.addLine( 'v~', segment )
             else: # What is segment is blank (\\NL* at end of line)???
                 if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
                 if not writtenV:
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index d7808e0..3f269f5 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -791,7 +791,7 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
                     elif not writtenV:
                         bookObject.addLine( 'v', '{} {}'.format( V, segment ) )
                         writtenV = True
-                    else: leftovers += segment
+                    else: bookObject.addLine( 'v~', segment )
             else: # What is segment is blank (\\NL* at end of line)???
                 if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
                 if not writtenV:
-- 
2.43.0


From c7d4ce927be8d1bc7ebc0396b58798ecc3823a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 097/151] fix: MySwordBible, ESwordBible: start the chapter
 when its first verse is missing or plain text

---
 BibleOrgSys/Formats/ESwordBible.py  | 2 ++
 BibleOrgSys/Formats/theWordBible.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 32b4caa..bd86c53 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -530,6 +530,7 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
 
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: {} {}:{} {!r}".format( BBB, C, V, originalLine ) )
     if originalLine is None: # We don't have an entry for this C:V
+        if V == 1: bookObject.addLine( 'c', str(C) ) # but there can still be other verses in the chapter
         return
 
     if '<span ' in originalLine or '<p ' in originalLine: # Seems to be HTML
@@ -542,6 +543,7 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
     else:
         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: What's this: {} {} {}:{} {!r}".format( myName, BBB, C, V, originalLine ) )
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: halt # What's this???
+        if V == 1: bookObject.addLine( 'c', str(C) )
         bookObject.addLine( 'v', '{} {}'.format( V, originalLine ) )
 # end of ESwordModule.handleESwordLine
 
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 3f269f5..03078c9 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -539,6 +539,7 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
     if C!=1 and V==1: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
 
     if line is None: # We don't have an entry for this C:V
+        if C==1 and V==1: bookObject.addLine( 'c', str(C) ) # but there can still be other verses in the chapter
         return
 
     if line.startswith( '<CM>' ) and DEBUGGING_THIS_MODULE:
-- 
2.43.0


From d95e023a8a72077e84102764636a3c09f8cd2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 098/151] fix: MyBibleBible: import the texts of notes

---
 BibleOrgSys/Formats/MyBibleBible.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 142c7bb..620ebe9 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -566,8 +566,8 @@ class MyBibleBible( Bible ):
             if line.endswith( '<BR>' ): line = line[:-4] # CSLU
 
             # Change MyBible format codes
-            line = line.replace( '<n>{', '\\f ' ).replace( '}</n>', '\\f*' ) # ISV
-            line = line.replace( '<n>', '\\f ' ).replace( '</n>', '\\f*' )
+            line = line.replace( '<n>{', '\\f + \\ft ' ).replace( '}</n>', '\\f*' ) # ISV
+            line = line.replace( '<n>', '\\f + \\ft ' ).replace( '</n>', '\\f*' )
             line = line.replace( '<f>', '\\fn ' ).replace( '</f>', '\\fn*' ) # BTI
             line = line.replace( '<i>', '\\add ' ).replace( '</i>', '\\add*' )
             line = line.replace( '<b>', '\\bd ' ).replace( '</b>', '\\bd*' ) # RHB
@@ -672,8 +672,8 @@ class MyBibleBible( Bible ):
             line = originalLine
 
             # Change MyBible format codes
-            line = line.replace( '<n>{', '\\f ' ).replace( '}</n>', '\\f*' ) # ISV
-            line = line.replace( '<n>', '\\f ' ).replace( '</n>', '\\f*' )
+            line = line.replace( '<n>{', '\\f + \\ft ' ).replace( '}</n>', '\\f*' ) # ISV
+            line = line.replace( '<n>', '\\f + \\ft ' ).replace( '</n>', '\\f*' )
             line = line.replace( '<i>', '\\add ' ).replace( '</i>', '\\add*' )
             line = line.replace( '<e>', '\\em ' ).replace( '</e>', '\\em*' )
             line = line.replace( '<J>', '\\wj ' ).replace( '</J>', '\\wj*' )
-- 
2.43.0


From 0c438c447fdfa0701a54fff036239bc66616216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 099/151] fix: MyBibleBible: do not leave paragraph markers
 inside verse texts

---
 BibleOrgSys/Formats/MyBibleBible.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 620ebe9..de1bce3 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -574,11 +574,11 @@ class MyBibleBible( Bible ):
             line = line.replace( '<e>', '\\em ' ).replace( '</e>', '\\em*' )
             line = line.replace( '<J>', '\\wj ' ).replace( '</J>', '\\wj*' ).replace( '<J/>', '\\wj*' ) # ¥­£¥
             line = line.replace( '<S>', '\\str ' ).replace( '</S>', '\\str*' )
-            line = line.replace( '<t>', '\\qm ' ).replace( '</t>', '\\m ' )
-            line = line.replace( '<br/>', '\\m ' )
-            line = line.replace( '<pb/>', '\\p ' )
-            line = line.replace( '<p>', '\\p ' ) # KJ-1769
-            line = line.replace( '<br>', '\\m ' ) # RHB
+            line = line.replace( '<t>', '\\NL*\\qm ' ).replace( '</t>', '\\NL*\\m ' )
+            line = line.replace( '<br/>', '\\NL*\\m ' )
+            line = line.replace( '<pb/>', '\\NL*\\p ' )
+            line = line.replace( '<p>', '\\NL*\\p ' ) # KJ-1769
+            line = line.replace( '<br>', '\\NL*\\m ' ) # RHB
 
             # Check for left-overs
             if '<' in line or '>' in line: # or '{' in line or '}' in line: RSTI has braces
@@ -590,7 +590,14 @@ class MyBibleBible( Bible ):
                 bookObject.addLine( 'c', str(C) )
                 lastC = C
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, repr(line) )
-            bookObject.addLine( 'v', '{} {}'.format( V, line ) )
+            segments = line.split( '\\NL*' )
+            if len(segments)>1 and not segments[0].strip(): # The paragraph starts before the verse
+                marker, segments[0] = segments.pop( 1 )[1:].split( ' ', 1 )
+                bookObject.addLine( marker, '' )
+            bookObject.addLine( 'v', '{} {}'.format( V, segments[0].rstrip() ) )
+            for segment in segments[1:]: # Each starts with a paragraph marker
+                marker, text = segment[1:].split( ' ', 1 )
+                bookObject.addLine( marker, text.strip() )
         # end of importVerseLine
 
 
-- 
2.43.0


From fd41eaf39bbfbf4feeb609cd01ce59db4b02e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 100/151] fix: theWordBible: rows starting with a paragraph
 code belong to their own verse

---
 BibleOrgSys/Formats/theWordBible.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 03078c9..134b924 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -757,10 +757,10 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
     if line.endswith( '\\q3 \\NL*'): line = line[:-5] # Don't need nl and then space at end of line
     if line.endswith( '\\q4 \\NL*'): line = line[:-5] # Don't need nl and then space at end of line
     if line.endswith( '\\NL*' ): line = line[:-4] # Don't need nl at end of line
-    if '\\NL*' in line: # We need to break the original line into different USFM markers
+    startMarker = line[1:].split( ' ', 1 )[0] if line.startswith( '\\' ) else None
+    if '\\NL*' in line or startMarker and BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( startMarker ): # We need to break the original line into different USFM markers
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\nMessing with segments: {} {}:{} {!r}".format( BBB, C, V, line ) )
         segments = line.split( '\\NL*' )
-        assert len(segments) >= 2
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " segments (split by backslash):", segments )
         leftovers = ''
         for segment in segments:
@@ -787,7 +787,12 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "marker", marker )
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "leftovers", repr(leftovers) )
                         assert marker in ('mt1','mt2','mt3', 's1','s2','s3', 'q1','q2','q3', 'r')
-                    if BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( marker ):
+                    if marker in BibleOrgSysGlobals.USFMParagraphMarkers and not writtenV: # The text is the start of the verse
+                        if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
+                        bookObject.addLine( marker, '' )
+                        bookObject.addLine( 'v', '{} {}'.format( V, bits[1] ) )
+                        writtenV = True
+                    elif BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( marker ):
                         bookObject.addLine( marker, bits[1] )
                     elif not writtenV:
                         bookObject.addLine( 'v', '{} {}'.format( V, segment ) )
-- 
2.43.0


From 2aee9e2d0bd76d5b880790fa0fb3308f8510384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 101/151] fix: theWordBible: do not join words at a <CI> code

---
 BibleOrgSys/Formats/theWordBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 134b924..2056df3 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -715,6 +715,7 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
     line = line.replace( '<CI><PI2>','\\NL*\\q2 ' ).replace('<Ci>','')
     line = line.replace( '<CI><PI3>','\\NL*\\q3 ' )
     line = line.replace( '<CI><PI4>','\\NL*\\q4 ' )
+    line = re.sub( '<CI>(?!<P)', r'\\NL*\\p ', line )
     #line = line.replace( '<CI><PI5>','\\NL*\\q4 ' )
     line = line.replace( '<CL><PI2>','\\NL*\\q2 ' )
     line = line.replace( '<CL>','\\NL*\\m ' )
-- 
2.43.0


From 197f2d53e298dedacf6e7976f57e0d0b0196fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 102/151] fix: count figures in discovery (they are in the
 extras)

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 083116d..b0f37b0 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3310,7 +3310,6 @@ class InternalBibleBook:
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
             if text:
                 if '\\+' in text: bkDict['haveNestedUSFMarkers'] = True
-                bkDict['figuresCount'] += text.count( '\\fig ' )
                 if marker in BOS_PRINTABLE_MARKERS: # process this main text
                     countWordsForDiscover( marker, cleanText, 'main' )
                 #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Ignoring {} {}:{} {}={}".format( self.BBB, C, V, marker, repr(text) ) )
@@ -3337,6 +3336,8 @@ class InternalBibleBook:
                         if '\\xo' in extraText: bkDict['haveCrossReferenceOrigins'] = True
                         if cleanExtraText and cleanExtraText[-1] in '.።' or cleanExtraText.endswith('.”'):
                             xrefsPeriodCount += 1
+                    elif extraType=='fig':
+                        bkDict['figuresCount'] += 1
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
-- 
2.43.0


From 7e10f2e183c6af0c655db077263de3a8549d46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 103/151] fix: discovery: a book whose last verse is empty is
 not finished

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b0f37b0..82c1d7a 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3341,6 +3341,7 @@ class InternalBibleBook:
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
+        if lastMarker=='v': bkDict['seemsFinished'] = False # The last verse in the book is empty
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'wordCount', self.BBB, bkDict['wordCount'] )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'uniqueWordCount', self.BBB, bkDict['uniqueWordCount'] )
         bkDict['uniqueWordCount'] = len( bkDict['allWordCounts'] )
-- 
2.43.0


From 370878e1a7a8e70db3adac3f47cb2bd719864db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 104/151] fix: discovery: notice lists (li1 is a paragraph
 marker too)

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 82c1d7a..d59a047 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3299,13 +3299,12 @@ class InternalBibleBook:
             elif marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                 bkDict['haveParagraphMarkers'] = True
                 if text: bkDict['haveVerseText'] = True
+                if marker == 'li1': bkDict['haveLists'] = True
             elif marker in ('is1','ip','iot','io1'):
                 bkDict['haveIntroductoryMarkers'] = True
                 if text: bkDict['haveIntroductoryText'] = True
             elif marker == 'tr':
                 bkDict['haveTables'] = True
-            elif marker == 'li1':
-                bkDict['haveLists'] = True
 
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
             if text:
-- 
2.43.0


From 80bdd3fad292254df7719ddd635c3b75aeeb55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 105/151] fix: include verse text in the character counts of
 doCheckCharacters

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index d59a047..5a7e796 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4125,7 +4125,7 @@ class InternalBibleBook:
                 characterErrors.append( lineLocationSpace + _("Trailing space in {!r}").format( adjText ) )
                 self.addPriorityError( 5, C, V, _("Trailing space in text line") )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lineLocationSpace + _("Trailing space in {} {!r}").format( marker, adjText ) )
-            if BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
+            if marker in ('v~','p~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
                 for char in adjText:
                     lcChar = char.lower()
 
-- 
2.43.0


From dffac0b78ec6d09cd81dcad5d12d495ba8fb4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 106/151] fix: include verse text in the word counts of
 doCheckWords

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 5a7e796..08a327a 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4576,7 +4576,7 @@ class InternalBibleBook:
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
 
-            if text and BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker): # process this main text
+            if text and ( marker in ('v~','p~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker) ): # process this main text
                 lastTextWordTuple = countWordsForCheck( marker, cleanText, lastTextWordTuple )
 
             extras = entry.getExtras()
-- 
2.43.0


From 271adca64866d4f0c63dd074ef80c721ee96f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 107/151] fix: put cross-reference anchor mismatches with the
 cross-reference errors

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 08a327a..4c839fc 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5020,7 +5020,7 @@ class InternalBibleBook:
                                 if 1: # new code
                                     anchor = BibleAnchorReference( self.BBB, C, V )
                                     if not anchor.matchesAnchorString( noteText, 'cross-reference' ):
-                                        footnoteErrors.append( lineLocationSpace + _("Cross-reference anchor reference seems not to match: {!r}").format( noteText ) )
+                                        xrefErrors.append( lineLocationSpace + _("Cross-reference anchor reference seems not to match: {!r}").format( noteText ) )
                                         logging.error( _("Cross-reference anchor reference seems not to match after {} {}:{} in {!r}").format( self.BBB, C, V, noteText ) )
                                         self.addPriorityError( 41, C, V, _("Cross-reference anchor reference mismatch") )
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.BBB, C, V, 'XR0', '"'+noteText+'"' )
-- 
2.43.0


From 52c5fb67691e6c27e3dda643c06cd3bc700ddfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 108/151] fix: ignore our own iot nesting entries in
 doCheckIntroduction

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 4c839fc..00a7b66 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4762,7 +4762,7 @@ class InternalBibleBook:
                 elif cleanText[-1] in '.።':
                     introductionErrors.append( lineLocationSpace + _("{} heading ends with a period: {}").format( marker, text ) )
                     self.addPriorityError( 49, C, V, _("Heading ends with a period") )
-            elif marker=='iot':
+            elif marker=='iot' and text is not None: # Ignore our own (nesting) iot entries
                 titleList.append( "{} {}:{} '{}'".format( self.BBB, C, V, text ) )
                 if not cleanText:
                     introductionErrors.append( lineLocationSpace + _("Missing outline title text for marker {}").format( marker ) )
-- 
2.43.0


From 6f9826915b38910df87de6e1b35eac1cc62cd001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 109/151] fix: check the character markers and notes of verse
 text in doCheckSFMs

---
 BibleOrgSys/Internals/InternalBibleBook.py | 24 ++++++++++------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 00a7b66..32d1a41 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3733,12 +3733,8 @@ class InternalBibleBook:
 
             if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                 continue # Just ignore these added markers
-            elif marker == 'v~':
-                lastMarker, lastMarkerEmpty = 'v', markerEmpty
-                continue
-            elif marker == 'p~':
-                lastMarker, lastMarkerEmpty = 'p', markerEmpty # not sure if this is correct here ?????
-                continue
+            elif marker in ('v~','p~'):
+                pass # Not a newline marker, but the contents still need to be checked below
             elif marker == 'c~':
                 lastMarker, lastMarkerEmpty = 'c', markerEmpty
                 continue
@@ -3757,7 +3753,7 @@ class InternalBibleBook:
                 newlineMarkerCounts[marker] = 1 if marker not in newlineMarkerCounts else (newlineMarkerCounts[marker] + 1)
 
             # Check the progression through the various sections
-            try: newSection = BibleOrgSysGlobals.loadedUSFMMarkers.markerOccursIn( marker if marker!='v~' else 'v' )
+            try: newSection = section if marker in ('v~','p~') else BibleOrgSysGlobals.loadedUSFMMarkers.markerOccursIn( marker )
             except KeyError: logging.error( "IBB:doCheckSFMs: markerOccursIn failed for {!r}".format( marker ) )
             if newSection != section: # Check changes into new sections
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} {}:{} {} takes us from {} to {}".format( self.BBB, C, V, marker, section, newSection ) )
@@ -3787,17 +3783,18 @@ class InternalBibleBook:
                 section = newSection
 
             # Note the newline SFM order -- create a list of markers in order (with duplicates combined, e.g., \v \v -> \v+)
-            if marker != lastModifiedMarker: modifiedMarkerList.append( marker )
+            if marker in ('v~','p~'): pass # Not a newline marker
+            elif marker != lastModifiedMarker: modifiedMarkerList.append( marker )
             else: # same marker in a row -- we append a sign to the saved marker to indicate multiple occurrences
                 oldMarker = modifiedMarkerList.pop()
                 assert oldMarker == marker or oldMarker == marker+'*'
                 modifiedMarkerList.append( marker+'*' ) # Save the marker with the sign
-            lastModifiedMarker = marker
+            if marker not in ('v~','p~'): lastModifiedMarker = marker
 
             # Check for known bad combinations
             if marker=='nb' and lastMarker in ('s','s1','s2','s3','s4', 'qa'):
                 newlineMarkerErrors.append( lineLocationSpace + _("'nb' not allowed immediately after {!r} section heading").format( marker ) )
-            if self.checkUSFMSequencesFlag: # Check for known good combinations
+            if self.checkUSFMSequencesFlag and marker not in ('v~','p~'): # Check for known good combinations
                 commonGoodNewlineMarkerCombinations = (
                     # If a marker has nothing after it, it must contain data
                     # If a marker has =E after it, it must NOT contain data
@@ -3868,7 +3865,7 @@ class InternalBibleBook:
                             newlineMarkerErrors.append( lineLocationSpace + _("{!r} with text not normally used following {!r} with text").format( marker, lastMarker ) )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lineLocationSpace + _("{!r} with text not normally used following {!r} with text").format( marker, lastMarker ) )
 
-            getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
+            getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker[0] if marker in ('v~','p~') else marker )
             if text:
                 # Check the internal SFMs
                 if '\\' in text:
@@ -4025,7 +4022,8 @@ class InternalBibleBook:
                     adjExtraMarkers = thisExtraMarkers
                     for uninterestingMarker in allAvailableCharacterMarkers: # Remove character formatting markers so we can check the footnote/xref hierarchy
                         while uninterestingMarker in adjExtraMarkers: adjExtraMarkers.remove( uninterestingMarker )
-                    if adjExtraMarkers and adjExtraMarkers not in BibleOrgSysGlobals.loadedUSFMMarkers.getTypicalNoteSets( extraType ):
+                    if adjExtraMarkers and extraType in ('fn','en','xr') \
+                    and adjExtraMarkers not in BibleOrgSysGlobals.loadedUSFMMarkers.getTypicalNoteSets( 'fn' if extraType=='en' else extraType ):
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got", extraType, extraText, thisExtraMarkers )
                         if thisExtraMarkers: noteMarkerErrors.append( lineLocationSpace + _("Unusual {} marker set: {} in {}").format( extraName, thisExtraMarkers, extraText ) )
                         else: noteMarkerErrors.append( lineLocationSpace + _("Missing {} formatting in {}").format( extraName, extraText ) )
@@ -4046,7 +4044,7 @@ class InternalBibleBook:
                         functionalCounts['Footnotes'] = 1 if 'Footnotes' not in functionalCounts else (functionalCounts['Footnotes'] + 1)
                     elif extraType == 'xr':
                         functionalCounts['Cross-References'] = 1 if 'Cross-References' not in functionalCounts else (functionalCounts['Cross-References'] + 1)
-            lastMarker, lastMarkerEmpty = marker, markerEmpty
+            lastMarker, lastMarkerEmpty = 'v' if marker=='v~' else 'p' if marker=='p~' else marker, markerEmpty
 
 
         # Check the relative ordering of newline markers
-- 
2.43.0


From 555f8f5c069dc5230c39de11f940633f536b6eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 110/151] fix: fill in the testament totals when aggregating
 discovery results

---
 BibleOrgSys/Internals/InternalBible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 629269d..527509d 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1300,15 +1300,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         for BBB in self.discoveryResults:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "discoveryResults for", BBB, len(self.discoveryResults[BBB]), self.discoveryResults[BBB] )
             isOT = isNT = isDC = False
-            if isOT:
+            if BibleOrgSysGlobals.loadedBibleBooksCodes.isOldTestament_NR( BBB ):
                 isOT = True
                 if 'OTBookCount' not in aggregateResults: aggregateResults['OTBookCount'], aggregateResults['OTBookCodes'] = 1, [BBB]
                 else: aggregateResults['OTBookCount'] += 1; aggregateResults['OTBookCodes'].append( BBB )
-            elif isNT:
+            elif BibleOrgSysGlobals.loadedBibleBooksCodes.isNewTestament_NR( BBB ):
                 isNT = True
                 if 'NTBookCount' not in aggregateResults: aggregateResults['NTBookCount'], aggregateResults['NTBookCodes'] = 1, [BBB]
                 else: aggregateResults['NTBookCount'] += 1; aggregateResults['NTBookCodes'].append( BBB )
-            elif isDC:
+            elif BibleOrgSysGlobals.loadedBibleBooksCodes.isDeuterocanon_NR( BBB ):
                 isDC = True
                 if 'DCBookCount' not in aggregateResults: aggregateResults['DCBookCount'], aggregateResults['DCBookCodes'] = 1, [BBB]
                 else: aggregateResults['DCBookCount'] += 1; aggregateResults['DCBookCodes'].append( BBB )
-- 
2.43.0


From 5e28a46043d49469ce9f42dbc46f76f0284fefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 111/151] fix: strip punctuation inside a matching pair in
 stripWordEndsPunctuation

---
 BibleOrgSys/BibleOrgSysGlobals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index faa6707..8222f8b 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1287,6 +1287,9 @@ def stripWordEndsPunctuation( wordToken:str ) -> str:
         if wordToken.startswith(startChar) and wordToken.endswith(endChar) \
         and startChar not in wordToken[1:-1] and endChar not in wordToken[1:-1]:
             wordToken = wordToken[len(startChar):-len(endChar)] # Remove front and back matching/opposite characters
+            while wordToken and wordToken[-1] in TRAILING_WORD_PUNCT_CHARS:
+                if wordToken[-1] in MATCHING_CHARACTERS and MATCHING_CHARACTERS[wordToken[-1]] in wordToken: break
+                wordToken = wordToken[:-1] # Remove trailing punctuation that was inside the pair
     return wordToken
 # end of BibleOrgSysGlobals.stripWordEndsPunctuation
 
-- 
2.43.0


From 8fb30ab6b590ba8ee3acf8bd6dcddfcb82d3f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 112/151] fix: removing an unclosed field with an embedded
 marker never ended

---
 BibleOrgSys/Reference/USFM2Markers.py | 6 ++----
 BibleOrgSys/Reference/USFM3Markers.py | 7 ++-----
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..2ce5ba6 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -105,7 +105,6 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
     mLen = len( marker )
     ix = text.find( '\\'+marker+' ' )
     while ix != -1:
-        tLen = len( text )
         if closedFlag is None:
             ixEnd = text.find( '\\', ix+mLen+2 )
             if ixEnd == -1: # remove until end of line
@@ -123,11 +122,10 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
             text = text[:ix] + text[ixEnd+mLen+2:]
         elif closedFlag == False:
             ixEnd = text.find( '\\', ix+mLen+2 )
+            while ixEnd!=-1 and text[ixEnd+1:ixEnd+2]=='+': # We've hit an embedded marker which is part of this field
+                ixEnd = text.find( '\\', ixEnd+1 )
             if ixEnd == -1: # remove until end of line
                 text = text[:ix]
-            elif ixEnd<tLen-1 and text[ixEnd+1]=='+': # We've hit an embedded marker
-                logging.critical( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
-                if BibleOrgSysGlobals.debugFlag: halt
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( '\\'+marker+' ' )
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..dd36e74 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -102,7 +102,6 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
     mLen = len( marker )
     ix = text.find( f'\\{marker} ' )
     while ix != -1:
-        tLen = len( text )
         if closedFlag is None:
             ixEnd = text.find( '\\', ix+mLen+2 )
             if ixEnd == -1: # remove until end of line
@@ -120,12 +119,10 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
             text = text[:ix] + text[ixEnd+mLen+2:]
         elif closedFlag == False:
             ixEnd = text.find( '\\', ix+mLen+2 )
+            while ixEnd!=-1 and text[ixEnd+1:ixEnd+2]=='+': # We've hit an embedded marker which is part of this field
+                ixEnd = text.find( '\\', ixEnd+1 )
             if ixEnd == -1: # remove until end of line
                 text = text[:ix]
-            elif ixEnd<tLen-1 and text[ixEnd+1]=='+': # We've hit an embedded marker
-                logger = logging.critical if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag else logging.error
-                logger( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
-                if DEBUGGING_THIS_MODULE and BibleOrgSysGlobals.debugFlag: halt
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( f'\\{marker} ' )
-- 
2.43.0


From bf83fd2caa10efd43912f7130315066e508a9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 113/151] fix: USFM2 getMarkerListFromText crashed on a nested
 closing marker with nothing open

---
 BibleOrgSys/Reference/USFM2Markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 2ce5ba6..be6a0eb 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -643,7 +643,8 @@ class USFM2Markers:
             elif x==' ' or x=='': # Open marker in line or at end of line
                 cx = [m] #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "set", cx )
             elif x=='+': cx.append( m ) #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "add", m, cx )
-            elif x=='-': cx.pop() #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "del", m, cx )
+            elif x=='-':
+                if cx: cx.pop() #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "del", m, cx )
             elif x=='*': cx = [] #; vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "clr", cx )
             else:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFM2Markers.getMarkerListFromText: Shouldn't happen", firstResult, secondResult,
-- 
2.43.0


From 2596467782c6bed22ed27eeeb85d126c65f85374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 114/151] fix: numbered milestone markers have their number
 before -s and -e

---
 BibleOrgSys/Reference/USFM3Markers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index dd36e74..9b419c2 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -534,12 +534,14 @@ class USFM3Markers:
                     if includeNestedMarkers: result.append( nestedMarker + '*' )
                 if expandNumberableMarkers and self.isNumberableMarker( marker ):
                     for digit in range(1, int(self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['highestNumberSuffix'])+1):
-                        str_digit = str(digit)
-                        result.append( adjMarker+str_digit )
-                        if includeNestedMarkers: result.append( nestedMarker+str_digit )
+                        # The digit comes before the -s or -e of milestone markers
+                        ending = marker[-2:] if marker.endswith( ('-s','-e') ) else ''
+                        numberedEnding = str(digit) + ending
+                        result.append( adjMarker.removesuffix( ending )+numberedEnding )
+                        if includeNestedMarkers: result.append( nestedMarker.removesuffix( ending )+numberedEnding )
                         if includeEndMarkers:
-                            result.append( adjMarker + str_digit + '*' )
-                            if includeNestedMarkers: result.append( nestedMarker + str_digit + '*' )
+                            result.append( adjMarker.removesuffix( ending ) + numberedEnding + '*' )
+                            if includeNestedMarkers: result.append( nestedMarker.removesuffix( ending ) + numberedEnding + '*' )
         return result
     # end of USFM3Markers.getCharacterMarkersList
 
-- 
2.43.0


From 1f6a6c8b16850ddea1197849ec7b05019fc31732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 115/151] fix: the final forms of kaf and pe are consonants,
 and qof has none

---
 BibleOrgSys/OriginalLanguages/Hebrew.py | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index 7b47d95..420e8c2 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -59,23 +59,23 @@ zayin = 'ז'
 het = 'ח'
 tet = 'ט'
 yod = 'י'
-kaf = 'כ'
+kaf = 'כ'; kafFinal = 'ך'
 lamed = 'ל'
 mem = 'מ'; memFinal = 'ם'
 nun = 'נ'; nunFinal = 'ן'
 samekh = 'ס'
 ayin = 'ע'
-pe = 'פ'
+pe = 'פ'; peFinal = 'ף'
 tsadi = 'צ'; tsadiFinal = 'ץ'
-qof = 'ק'; qofFinal = 'ך'
+qof = 'ק'
 resh = 'ר'
 sinShin = 'ש'
 taw = 'ת'
 normalConsonants = ( alef, bet, gimel, dalet, he, waw, zayin, het, tet, yod, kaf, lamed, mem, nun, samekh, ayin, pe, tsadi, qof, resh, sinShin, taw, )
 assert len(normalConsonants) == 22
-finalConsonants = ( memFinal, nunFinal, tsadiFinal, qofFinal, )
+finalConsonants = ( kafFinal, memFinal, nunFinal, peFinal, tsadiFinal, )
 consonants = normalConsonants + finalConsonants
-allFinalConsonants = ( alef, bet, gimel, dalet, he, waw, zayin, het, tet, yod, kaf, lamed, memFinal, nunFinal, samekh, ayin, pe, tsadiFinal, qofFinal, resh, sinShin, taw, )
+allFinalConsonants = ( alef, bet, gimel, dalet, he, waw, zayin, het, tet, yod, kafFinal, lamed, memFinal, nunFinal, samekh, ayin, peFinal, tsadiFinal, qof, resh, sinShin, taw, )
 
 
 # Vowel points
@@ -156,14 +156,14 @@ BOS_HEBREW_TRANSLITERATION = (
             (waw+dageshOrMapiq,'u'),(waw+dageshOrMapiq,'ō'),(waw,'v'),
             (zayin+dageshOrMapiq,'zz'),(zayin,'z'),
             (het+dageshOrMapiq,'ħ'),(het,'ħ'), (tet+dageshOrMapiq,'ŧ'),(tet,'ŧ'),
-            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'kk'),(kaf,'k'),
+            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'kk'),(kaf,'k'), (kafFinal+dageshOrMapiq,'kk'),(kafFinal,'k'),
             (lamed+dageshOrMapiq,'ll'),(lamed,'l'),
             (mem+dageshOrMapiq,'mm'),(mem,'m'), (memFinal+dageshOrMapiq,'mm'),(memFinal,'m'),
             (nun+dageshOrMapiq,'nn'),(nun,'n'), (nunFinal+dageshOrMapiq,'nn'),(nunFinal,'n'),
             (samekh+dageshOrMapiq,'ş'),(samekh,'ş'), (ayin+dageshOrMapiq,''),(ayin,''),
-            (pe+dageshOrMapiq,'p'),(pe,'f'),
+            (pe+dageshOrMapiq,'p'),(pe,'f'), (peFinal+dageshOrMapiq,'p'),(peFinal,'f'),
             (tsadi+dageshOrMapiq,'ʦʦ'),(tsadi,'ʦ'), (tsadiFinal+dageshOrMapiq,'ʦʦ'),(tsadiFinal,'ʦ'),
-            (qof+dageshOrMapiq,'qq'),(qof,'q'), (qofFinal+dageshOrMapiq,'qq'),(qofFinal,'q'),
+            (qof+dageshOrMapiq,'qq'),(qof,'q'),
             (resh+dageshOrMapiq,'rr'),(resh,'r'),
             (sinShin+shinDot,'sh'),(sinShin+sinDot,'s'), (taw+dageshOrMapiq,'tt'),(taw,'t'),
             (sheva,'(ə)'),(hatafSegol,'e'),(segol,'e'),(hiriq,'i'),(tsere,'ē'),(patah,'a'),(qamats,'ā'),(holam,'o'),(qubuts,'u'),
@@ -190,14 +190,14 @@ STANDARD_HEBREW_TRANSLITERATION = (
             (waw+dageshOrMapiq,'u'),(waw+dageshOrMapiq,'ō'),(waw,'w'),
             (zayin+dageshOrMapiq,'z'),(zayin,'z'),
             (het+dageshOrMapiq,'ḥḥ'),(het,'ḥ'), (tet+dageshOrMapiq,'ŧ'),(tet,'ŧ'),
-            (yod+dageshOrMapiq,'yy'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'),
+            (yod+dageshOrMapiq,'yy'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'), (kafFinal+dageshOrMapiq,'k'),(kafFinal,'k'),
             (lamed+dageshOrMapiq,'ll'),(lamed,'l'),
             (mem+dageshOrMapiq,'mm'),(mem,'m'), (memFinal+dageshOrMapiq,'m'),(memFinal,'m'),
             (nun+dageshOrMapiq,'nn'),(nun,'n'), (nunFinal+dageshOrMapiq,'n'),(nunFinal,'n'),
             (samekh+dageshOrMapiq,'ş'),(samekh,'ş'), (ayin+dageshOrMapiq,''),(ayin,''),
-            (pe+dageshOrMapiq,'p'),(pe,'̄p'),
+            (pe+dageshOrMapiq,'p'),(pe,'̄p'), (peFinal+dageshOrMapiq,'p'),(peFinal,'̄p'),
             (tsadi+dageshOrMapiq,'ṣṣ'),(tsadi,'ṣ'), (tsadiFinal+dageshOrMapiq,'ṣṣ'),(tsadiFinal,'ṣ'),
-            (qof+dageshOrMapiq,'q'),(qof,'q'), (qofFinal+dageshOrMapiq,'q'),(qofFinal,'q'),
+            (qof+dageshOrMapiq,'q'),(qof,'q'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
             (sinShin+shinDot,'š'),(sinShin+sinDot,'s'), (taw+dageshOrMapiq,'t'),(taw,'t'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
@@ -226,14 +226,14 @@ BOS_NAMES_HEBREW_TRANSLITERATION = (
             (waw+dageshOrMapiq,'u'),(waw+dageshOrMapiq,'ō'),(waw,'v'),
             (zayin+dageshOrMapiq,'z'),(zayin,'z'),
             (het+dageshOrMapiq,'ħ'),(het,'ħ'), (tet+dageshOrMapiq,'ŧ'),(tet,'ŧ'),
-            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'),
+            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'), (kafFinal+dageshOrMapiq,'k'),(kafFinal,'k'),
             (lamed+dageshOrMapiq,'l'),(lamed,'l'),
             (mem+dageshOrMapiq,'m'),(mem,'m'), (memFinal+dageshOrMapiq,'m'),(memFinal,'m'),
             (nun+dageshOrMapiq,'n'),(nun,'n'), (nunFinal+dageshOrMapiq,'n'),(nunFinal,'n'),
             (samekh+dageshOrMapiq,'ş'),(samekh,'ş'), (ayin+dageshOrMapiq,''),(ayin,''),
-            (pe+dageshOrMapiq,'p'),(pe,'f'),
+            (pe+dageshOrMapiq,'p'),(pe,'f'), (peFinal+dageshOrMapiq,'p'),(peFinal,'f'),
             (tsadi+dageshOrMapiq,'ʦ'),(tsadi,'ʦ'), (tsadiFinal+dageshOrMapiq,'ʦ'),(tsadiFinal,'ʦ'),
-            (qof+dageshOrMapiq,'q'),(qof,'q'), (qofFinal+dageshOrMapiq,'q'),(qofFinal,'q'),
+            (qof+dageshOrMapiq,'q'),(qof,'q'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
             (sinShin+shinDot,'sh'),(sinShin+sinDot,'s'), (taw+dageshOrMapiq,'t'),(taw,'t'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
-- 
2.43.0


From aeb7eea1a7e6f9442952af9e5d5b66cff5c2ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 116/151] fix: the options reach the removal of marks from the
 own text

---
 BibleOrgSys/OriginalLanguages/Hebrew.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index 420e8c2..b67b3ee 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -434,7 +434,7 @@ class Hebrew():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "removeVowelPointing( {!r}, {} )".format( text, removeMetegOrSiluq ) )
 
         if text is None: # Use our own text
-            self.currentText = self.removeVowelPointing( self.currentText ) # recursive call
+            self.currentText = self.removeVowelPointing( self.currentText, removeMetegOrSiluq ) # recursive call
             return self.currentText
         # else we were given some text to process
         if removeMetegOrSiluq: text = self._removeMetegOrSiluq( text, asVowel=True )
@@ -451,7 +451,7 @@ class Hebrew():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "removeOtherMarks( {!r} )".format( text ) )
 
         if text is None: # Use our own text
-            self.currentText = self.removeOtherMarks( self.currentText ) # recursive call
+            self.currentText = self.removeOtherMarks( self.currentText, removeSinShinDots ) # recursive call
             return self.currentText
         # else we were given some text to process
         text = self.removeAllMetegOrSiluq( text )
-- 
2.43.0


From 2c780015e319bebe10379e20bd531b5d32f65352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 117/151] fix: characters without a name do not end the removal
 of accents

---
 BibleOrgSys/OriginalLanguages/Greek.py  |  2 +-
 BibleOrgSys/OriginalLanguages/Hebrew.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Greek.py b/BibleOrgSys/OriginalLanguages/Greek.py
index 001dc7d..27f45b3 100755
--- a/BibleOrgSys/OriginalLanguages/Greek.py
+++ b/BibleOrgSys/OriginalLanguages/Greek.py
@@ -259,7 +259,7 @@ class Greek():
         # Check
         for cc,char in enumerate( resultText ):
             if char != ' ':
-                assert 'ACCENT' not in unicodedata.name(char), f"Greek accent not removed by removeAccents: {char=} ({unicodedata.name(char)}) from {text=}"
+                assert 'ACCENT' not in unicodedata.name(char,''), f"Greek accent not removed by removeAccents: {char=} ({unicodedata.name(char,'')}) from {text=}"
 
         # Check2 (unreliable???)
         # for char in resultText:
diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index b67b3ee..3d2e2d9 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -341,12 +341,12 @@ class Hebrew():
         this = ( ' ', '־', )
         for j,letter in enumerate(text):
             if letter not in consonants and letter not in this:
-                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) non-consonant at index {} in {!r}".format( letter, unicodedata.name(letter), j, text ) )
+                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) non-consonant at index {} in {!r}".format( letter, unicodedata.name(letter,''), j, text ) )
                 haveError = True
             if letter in finalConsonants and j<textLength-1:
                 nextLetter = text[j+1]
                 if nextLetter not in this:
-                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) final consonant before {!r} ({}) at index {} in {!r}".format( letter, unicodedata.name(letter), nextLetter, unicodedata.name(nextLetter), j, text ) )
+                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) final consonant before {!r} ({}) at index {} in {!r}".format( letter, unicodedata.name(letter,''), nextLetter, unicodedata.name(nextLetter,''), j, text ) )
                     haveError = True
         return haveError
     # end of Hebrew.verifyConsonantsOnly
@@ -381,20 +381,20 @@ class Hebrew():
                 nextMark = text[j+1] if j<textLength-1 else ''
                 if previousMark in ( patah, segol ) or nextMark in (): # Assume it's a vowel point meteg
                     if asVowel:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (vowel point) meteg after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (vowel point) meteg after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
                         text = text[:j] + text[j+1:]
                         madeChanges = True
                         break
                     else:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (vowel point) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (vowel point) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
                 else: # it doesn't appear to be a vowel point meteg
                     if not asVowel:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (cantillation mark) siluq after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (cantillation mark) siluq after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
                         text = text[:j] + text[j+1:]
                         madeChanges = True
                         break
                     else:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (cantillation mark) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (cantillation mark) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
             if not madeChanges: break # Check for another meteg if we made any changes
         return text
     # end of Hebrew._removeMetegOrSiluq
@@ -411,7 +411,7 @@ class Hebrew():
             if 1 or BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                 for char in self.currentText:
                     # print( f"{ord(char)=} {unicodedata.name(char)=} {char=} {unicodedata.category(char)=} {unicodedata.bidirectional(char)=} {unicodedata.combining(char)=} {unicodedata.mirrored(char)=}" )
-                    assert 'ACCENT' not in unicodedata.name(char), f"{unicodedata.name(char)=}"
+                    assert 'HEBREW ACCENT' not in unicodedata.name(char,''), f"{unicodedata.name(char,'')=}"
             return self.currentText
 
         # else we were given some text to process
-- 
2.43.0


From 0b9eb36afc99149e446213b1c007118db2480dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 118/151] fix: all lowercase accented Greek letters lose their
 accents

---
 BibleOrgSys/OriginalLanguages/Greek.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/BibleOrgSys/OriginalLanguages/Greek.py b/BibleOrgSys/OriginalLanguages/Greek.py
index 27f45b3..32498e6 100755
--- a/BibleOrgSys/OriginalLanguages/Greek.py
+++ b/BibleOrgSys/OriginalLanguages/Greek.py
@@ -136,6 +136,15 @@ GREEK_ACCENT_DICT = {
     'ύ':'υ', 'ὺ':'υ', 'ὐ':'υ', 'ὑ':'υ', 'ῦ':'υ', 'ὕ':'υ', 'ὖ':'υ', 'ὗ':'υ', 'ϋ':'υ', 'ὓ':'υ', 'ὔ':'υ', 'ὒ':'υ',
              'ΰ':'υ', 'ῢ':'υ',
     'ῥ':'ρ',
+    # The rest of the lowercase composed characters
+    'ἇ':'α', 'ά':'α', 'ᾀ':'α', 'ᾁ':'α', 'ᾂ':'α', 'ᾃ':'α', 'ᾆ':'α', 'ᾇ':'α', 'ᾰ':'α', 'ᾱ':'α', 'ᾲ':'α',
+    'ἒ':'ε', 'έ':'ε',
+    'ή':'η', 'ᾒ':'η', 'ᾓ':'η', 'ᾕ':'η', 'ῂ':'η',
+    'ἲ':'ι', 'ῐ':'ι', 'ῑ':'ι', 'ῗ':'ι',
+    'ό':'ο',
+    'ῤ':'ρ',
+    'ύ':'υ', 'ῠ':'υ', 'ῡ':'υ', 'ΰ':'υ', 'ῧ':'υ',
+    'ὣ':'ω', 'ώ':'ω', 'ᾡ':'ω', 'ᾢ':'ω', 'ᾣ':'ω', 'ᾤ':'ω', 'ᾥ':'ω', 'ᾦ':'ω', 'ῲ':'ω',
     }
 
 if BibleOrgSysGlobals.debugFlag: # Check that our tables have no obvious errors
-- 
2.43.0


From 90079212cccf9cc38ac62a267b8d0dd657f7aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 119/151] fix: a blank id line does not stop the search for
 USFM files

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 19ae377..6712a6b 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -284,6 +284,7 @@ class USFMFilenames:
                         idContent = line[4:]
                         tokens = idContent.split()
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Have id tokens: {}".format( tokens ) )
+                        if not tokens: break # There's nothing on the id line
                         UCToken0 = tokens[0].upper()
                         if UCToken0=='I': UCToken0 = '1'
                         if UCToken0=='II': UCToken0 = '2'
-- 
2.43.0


From 9e2eca69cf24c3b756d1a1a82a45c81707fdcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 120/151] fix: a byte order mark before the id line is not part
 of it

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 6712a6b..5bdfc2a 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -278,6 +278,7 @@ class USFMFilenames:
                 for line in possibleUSFMFile:
                     lineNumber += 1
                     if line[-1]=='\n': line = line[:-1] # Removing trailing newline character
+                    if lineNumber==1 and line and line[0]==BibleOrgSysGlobals.BOM: line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, thisFilename, lineNumber, line )
                     if line.startswith( '\\id ' ):
                         if len(line)<5: logging.warning( "id line {!r} in {} is too short".format( line, filepath ) )
-- 
2.43.0


From 59485d7e77cf2a93b26a19d8b3edeea9a4e0e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 121/151] fix: strict check compares the internal USFM id with
 the filename

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 5bdfc2a..6cb6112 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -442,9 +442,9 @@ class USFMFilenames:
                     if USFMId is None:
                         logging.error( "{}internal USFM Id missing for {} in {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', BBB, derivedFilename ) )
                         continue # so it doesn't get added
-                    BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
-                    if BBB != BBB:
-                        logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if BBB==USFMId else " -> {}".format(BBB), BBB, derivedFilename ) )
+                    internalBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
+                    if internalBBB != BBB:
+                        logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if internalBBB==USFMId else " -> {}".format(internalBBB), BBB, derivedFilename ) )
                         continue # so it doesn't get added
                 self.doListAppend( BBB, derivedFilename, resultList, "getConfirmedFilenameTuples" )
         self.lastTupleList = resultList
-- 
2.43.0


From e898c3c16552d3bffa17e33b3330305a505291e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 122/151] fix: none of three files for one book is chosen

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 6cb6112..890a7f4 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -489,8 +489,10 @@ class USFMFilenames:
             for BBB in self._BBBDictionary.keys():
                 self.doListAppend( BBB, self._BBBDictionary[BBB][1], resultList, "getPossibleFilenameTuplesInt1" )
         else:
+            foundBBBs = list( self._fileDictionary.values() )
             for folder,filename in self._fileDictionary.keys():
                 assert folder == self.givenFolderName
+                if foundBBBs.count( self._fileDictionary[(folder,filename,)] ) > 1: continue # We're not sure which of the duplicates to use
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "getPossibleFilenameTuplesInt", folder, filename, self._fileDictionary )
                 self.doListAppend( self._fileDictionary[(folder,filename,)], filename, resultList, "getPossibleFilenameTuplesInt2" )
         self.lastTupleList = resultList
-- 
2.43.0


From 26092ab4b5725574a0a13cf52b0fcc672a9df7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 123/151] fix: unexpected first line of a USX file is reported

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index c749611..b615e79 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -273,7 +273,7 @@ class USXFilenames:
                     if not firstLines or len(firstLines)<3: continue
                     if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                     and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                     if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                         continue # so it doesn't get added
                 resultList.append( (BBB, possibleFilename,) )
@@ -311,7 +311,7 @@ class USXFilenames:
                                 continue
                             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                             if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                                 continue # so it doesn't get added
                         self.doListAppend( BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMBookCode ), possibleFilename, resultList, "getPossibleFilenameTuplesExt" )
-- 
2.43.0


From 3bed9d9e04070bced936bf1bbe3e926956059310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 124/151] fix: USX filename patterns with USX book codes

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index b615e79..1082062 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -120,10 +120,10 @@ class USXFilenames:
                 if foundLength == 3:
                     self.hyphenIndex = None
                     for USXBookCode,USXDigits,BBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllUSXBooksCodeNumberTriples():
-                        if foundFileBit == BBB:
+                        if foundFileBit == USXBookCode.upper():
                             self.pattern = 'BBB'
                             matched = True
-                        elif foundFileBit.upper() == BBB:
+                        elif foundFileBit == USXBookCode.lower():
                             self.pattern = 'bbb'
                             matched = True
                 elif foundLength>=6 and containsDigits:
-- 
2.43.0


From b40630ad9d10643dbd7ed4d5840922eb584c43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:12 +0000
Subject: [PATCH 125/151] fix: OSIS book files whose code contains another code

---
 BibleOrgSys/Formats/OSISXMLBible.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4416b8a..fb6f39d 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -307,7 +307,7 @@ class OSISXMLBible( Bible ):
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Trying {}…".format( self.sourceFilepath ) )
                     if os.access( self.sourceFilepath, os.R_OK ): # we can read that file
                         self.possibleFilenames.append( filename )
-                        foundBBB = None
+                        foundBBB, foundCode = None, ''
                         upperFilename = filename.upper()
                         for osisBkCode in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes():
                             # osisBkCodes are all UPPERCASE
@@ -316,7 +316,9 @@ class OSISXMLBible( Bible ):
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "OSISXMLBible.__init__ found {!r} in {!r}".format( osisBkCode, upperFilename ) )
                                 if 'JONAH' in upperFilename and osisBkCode=='NAH': continue # Handle bad choice
                                 if 'ZEPH' in upperFilename and osisBkCode=='EPH': continue # Handle bad choice
-                                assert not foundBBB # Don't expect duplicates
+                                if len(osisBkCode) < len(foundCode): continue # Already have a longer code, e.g., 1JOHN not JOHN
+                                assert len(osisBkCode) != len(foundCode) # Don't expect duplicates
+                                foundCode = osisBkCode
                                 foundBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( osisBkCode, strict=True )
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  FoundBBB1 = {!r}".format( foundBBB ) )
                         if not foundBBB: # Could try a USFM/Paratext book code -- what writer creates these???
-- 
2.43.0


From ac1e778cd1147a9e0b45908584bc22a4cd799d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 126/151] fix: OSIS file list after a parse error

---
 BibleOrgSys/Formats/OSISXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index fb6f39d..a6677ea 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -496,7 +496,7 @@ class OSISXMLBible( Bible ):
         except ParseError as err:
             logging.critical( _("Loader parse error in xml file {}: {} {}").format( OSISFilepath, sys.exc_info()[0], err ) )
             loadErrors.append( _("Loader parse error in xml file {}: {} {}").format( OSISFilepath, sys.exc_info()[0], err ) )
-            return
+            return bookList
         if BibleOrgSysGlobals.debugFlag: assert self.XMLTree # Fail here if we didn't load anything at all
 
         # Find the main (osis) container
-- 
2.43.0


From f550d0e29df37f75cbf13263257527c69ca49275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 127/151] fix: OSIS elements without text gave None

---
 BibleOrgSys/Formats/OSISXMLBible.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index a6677ea..2da0a66 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -627,7 +627,7 @@ class OSISXMLBible( Bible ):
 
         location = "validateDivineName: " + locationDescription
         BibleOrgSysGlobals.checkXMLNoAttributes( element, location+" at "+verseMilestone, '3f7h', loadErrors )
-        thisBook.appendToLastLine( f'\\nd {clean(element.text)}' )
+        thisBook.appendToLastLine( f'\\nd {clean(element.text) or ""}' )
         for subelement in element:
             if subelement.tag == OSISXMLBible.OSISNameSpace+'w':
                 sublocation = "w of " + location
@@ -652,7 +652,7 @@ class OSISXMLBible( Bible ):
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "validateAndLoadSEG( {}, {}, {} )".format( BibleOrgSysGlobals.elementStr(element), locationDescription, verseMilestone ) )
         assert isinstance( thisBook, BibleBook )
         location = 'validateAndLoadSEG: ' + locationDescription
-        SegText = element.text
+        SegText = element.text or ''
 
         # Process the attributes
         theType = None
@@ -804,7 +804,7 @@ class OSISXMLBible( Bible ):
         assert isinstance( thisBook, BibleBook )
         location = "validateHighlight: " + locationDescription
         #BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'gb5g', loadErrors )
-        highlightedText, highlightedTail = element.text, element.tail
+        highlightedText, highlightedTail = element.text or '', element.tail
         #if not highlightedText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "validateHighlight", repr(highlightedText), repr(highlightedTail), repr(location), repr(verseMilestone) )
         #if BibleOrgSysGlobals.debugFlag: assert highlightedText # No text if nested!
         highlightType = None
@@ -3183,7 +3183,7 @@ class OSISXMLBible( Bible ):
                         clsText = clean(subelement.text, loadErrors, sublocation, verseMilestone )
                         clsTail = clean(subelement.tail, loadErrors, sublocation, verseMilestone )
                         BibleOrgSysGlobals.checkXMLNoAttributes( element, sublocation+" at "+verseMilestone, 'js29', loadErrors )
-                        thisBook.appendToLastLine( f'\\cls {clsText}' )
+                        thisBook.appendToLastLine( f'\\cls {clsText or ""}' )
                         for sub2element in subelement:
                             if sub2element.tag == OSISXMLBible.OSISNameSpace+'p':
                                 sub2location = "p of " + sublocation
@@ -3375,7 +3375,7 @@ class OSISXMLBible( Bible ):
                                     logging.error( "4k3s Unprocessed {!r} sub-element ({}) in {} at {}".format( sub2element.tag, sub2element.text, sublocation, verseMilestone ) )
                                     loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (4k3s)".format( sub2element.tag, sub2element.text, sublocation, verseMilestone ) )
                                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-                            thisBook.appendToLastLine( "\\sc*{}".format( clean(subelement.tail) ) )
+                            thisBook.appendToLastLine( "\\sc*{}".format( clean(subelement.tail) or '' ) )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Here 3c52", repr(sentence) )
                         elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse' or (not BibleOrgSysGlobals.strictCheckingFlag and subelement.tag=='verse'):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here cx35", repr(sentence) )
-- 
2.43.0


From 158f80b9bb961fa9c120a132bca0d3721cc324ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 128/151] fix: OSIS segments of other types stopped the load

---
 BibleOrgSys/Formats/OSISXMLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 2da0a66..7c82c57 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -675,7 +675,8 @@ class OSISXMLBible( Bible ):
                 marker = theType # invented -- used below
             else:
                 marker = 'x--' # Gets ignored below
-                dPrint( 'Quiet', DEBUGGING_THIS_MODULE, theType, location, verseMilestone ); halt
+                dPrint( 'Quiet', DEBUGGING_THIS_MODULE, theType, location, verseMilestone )
+                if BibleOrgSysGlobals.debugFlag: halt
         else: # What marker do we need ???
             marker = 'fv'
         if marker == 'section': # We don't have marker for this
-- 
2.43.0


From 8f6c2f69426800b6903a2e91d6fac8fe1d767233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 129/151] fix: OSIS highlights of other types

---
 BibleOrgSys/Formats/OSISXMLBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 7c82c57..b77a46d 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -808,7 +808,7 @@ class OSISXMLBible( Bible ):
         highlightedText, highlightedTail = element.text or '', element.tail
         #if not highlightedText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "validateHighlight", repr(highlightedText), repr(highlightedTail), repr(location), repr(verseMilestone) )
         #if BibleOrgSysGlobals.debugFlag: assert highlightedText # No text if nested!
-        highlightType = None
+        highlightType = marker = None
         for attrib,value in element.items():
             if attrib=='type':
                 highlightType = value
@@ -825,7 +825,8 @@ class OSISXMLBible( Bible ):
         elif BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'validateHighlight: highlightX', highlightType, locationDescription, verseMilestone )
             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag or DEBUGGING_THIS_MODULE: halt
-        thisBook.appendToLastLine( '\\{} {}\\{}*'.format( marker, clean(highlightedText), marker ) )
+        if marker: thisBook.appendToLastLine( '\\{} {}\\{}*'.format( marker, clean(highlightedText), marker ) )
+        else: thisBook.appendToLastLine( clean(highlightedText) ) # We don't have a marker for this
         for subelement in element:
             if subelement.tag == OSISXMLBible.OSISNameSpace+'hi':
                 sublocation = "hi of " + locationDescription
-- 
2.43.0


From 1ee9415be2e9121c3791356f4b526a14f6743bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 130/151] fix: OSIS proper names in titles, notes and
 paragraphs

---
 BibleOrgSys/Formats/OSISXMLBible.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index b77a46d..a1b9b7e 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -904,7 +904,7 @@ class OSISXMLBible( Bible ):
     # end of validateRDG
 
 
-    def validateProperName( thisBook, element, locationDescription, verseMilestone, loadErrors ):
+    def validateProperName( self, thisBook, element, locationDescription, verseMilestone, loadErrors ):
         """
         """
         location = "validateProperName: " + locationDescription
@@ -1255,7 +1255,7 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                 sublocation = "validateCrossReferenceOrFootnote: name of " + locationDescription
-                validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg': # cross-references
                 sublocation = "validateCrossReferenceOrFootnote: seg of " + locationDescription
                 self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
@@ -1335,7 +1335,7 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                 sublocation = "validateTransChange: name of transChange of " + location
-                validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
                 sublocation = "validateTransChange: note of transChange of " + location
                 self.validateCrossReferenceOrFootnote( thisBook, subelement, sublocation, verseMilestone, loadErrors )
@@ -2841,7 +2841,7 @@ class OSISXMLBible( Bible ):
                     self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                     sublocation = "validateParagraph: name of " + locationDescription
-                    validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                    self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                     sublocation = "validateParagraph: seg of " + locationDescription
                     self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
-- 
2.43.0


From 1c8cad84f4d98abccc033176f3665c159ad54688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 131/151] fix: text of OSIS variant and alternative notes was
 lost

---
 BibleOrgSys/Formats/OSISXMLBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index a1b9b7e..0ea021a 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1060,6 +1060,7 @@ class OSISXMLBible( Bible ):
                 thisBook.appendToLastLine( '\\ft {}'.format( noteText ) )
             else:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "note2", noteType )
+                if openFieldname: thisBook.appendToLastLine( '\\ft {}'.format( clean(noteText) ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
         for subelement in element:
             if subelement.tag == OSISXMLBible.OSISNameSpace+'reference': # cross-references
-- 
2.43.0


From f1833a6ad22acd12348a9bb64c579883617de639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 132/151] fix: number of an OSIS bridged verse was joined to
 its text

---
 BibleOrgSys/Formats/OSISXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 0ea021a..c3895ad 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1459,7 +1459,7 @@ class OSISXMLBible( Bible ):
                         loadErrors.append( "Expected three components after hyphen in verse milestone {!r}".format( verseMilestone ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                         bits2 = [bits1[0],bits1[1],'999'] # Try to do something intelligent
-                    thisBook.addLine( 'v', bits1[2]+'-'+bits2[2] )
+                    thisBook.addLine( 'v', bits1[2]+'-'+bits2[2]+' ' )
                 else: # no hyphen
                     bits = verseMilestone.split( '.' )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "sdfssf", verseMilestone, bits )
-- 
2.43.0


From 2bd495ba14bac4e3988e8357f48b195144af7ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 133/151] fix: OSIS verse containers with text and sub-elements

---
 BibleOrgSys/Formats/OSISXMLBible.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index c3895ad..4c6c596 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1477,7 +1477,7 @@ class OSISXMLBible( Bible ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "OSISXMLBible.validateVerseElement verse container bits", bits, 'vT', verseText )
             if BibleOrgSysGlobals.debugFlag: assert len(bits)==3 and bits[1].isdigit() and bits[2].isdigit()
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "validateVerseElement: Have a verse container at", verseMilestone )
-            if verseText and verseText.strip():
+            if verseText and verseText.strip() and len(element)==0:
                 if self.source == "ftp://unboundftp.biola.edu/pub/albanian_utf8.zip": # Do some special handling
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here", "&amp;quot;" in verseText, "&quot;" in verseText )
                     verseText = verseText.lstrip().replace('&quot;','"').replace('&lt;','<').replace('&gt;','>') # Fix some encoding issues
@@ -3389,6 +3389,7 @@ class OSISXMLBible( Bible ):
                             if verseMilestone and verseMilestone.startswith('verseContainer.'): # it must have been a container -- process the subelements
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Yikes!" ) # Why??????????????
                                 thisBook.addLine( 'v', verseMilestone[15:]+' ' ) # Remove the 'verseContainer.' prefix
+                                if subelement.text and subelement.text.strip(): thisBook.appendToLastLine( clean(subelement.text) )
                                 for sub2element in subelement:
                                     if sub2element.tag == OSISXMLBible.OSISNameSpace+'w':
                                         sub2location = "w of " + sublocation
@@ -3502,6 +3503,15 @@ class OSISXMLBible( Bible ):
                                                     #logging.error( "9y5g Unprocessed {!r} sub-element ({}) in {} at {}".format( sub3element.tag, sub3element.text, sub2location, verseMilestone ) )
                                                     #loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (9y5g)".format( sub3element.tag, sub3element.text, sub2location, verseMilestone ) )
                                                     #if BibleOrgSysGlobals.debugFlag: halt
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'hi':
+                                        sub2location = "hi of " + sublocation
+                                        self.validateHighlight( thisBook, sub2element, sub2location, verseMilestone, loadErrors ) # Also handles the tail
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'divineName':
+                                        sub2location = "divineName of " + sublocation
+                                        self.validateDivineName( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'transChange':
+                                        sub2location = "transChange of " + sublocation
+                                        self.validateTransChange( thisBook, sub2element, sub2location, verseMilestone, loadErrors ) # Also handles the tail
                                     else:
                                         logging.error( "05kq Unprocessed {!r} sub-element {} in {} at {}".format( sub2element.tag, repr(sub2element.text), sublocation, verseMilestone ) )
                                         loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (05kq)".format( sub2element.tag, repr(sub2element.text), sublocation, verseMilestone ) )
-- 
2.43.0


From 6739b3bff88d0aaa0f13a665ab87a0f100d4dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 134/151] fix: newlines inside OSIS verse containers joined
 words

---
 BibleOrgSys/Formats/OSISXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4c6c596..d42cbb1 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -3524,7 +3524,7 @@ class OSISXMLBible( Bible ):
                                 if BibleOrgSysGlobals.debugFlag: assert bits[1].isdigit()
                                 if BibleOrgSysGlobals.debugFlag: assert bits[2]
                                 thisData = bits[1]
-                                if bits[2].strip(): thisData += ' ' + bits[2].replace('\n','')
+                                if bits[2].strip(): thisData += ' ' + clean(bits[2])
                                 #assert bits[2].strip()
                                 thisBook.addLine( 'v', thisData )
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, USFMResults[-4:] )
-- 
2.43.0


From 92080760a3b7c9c02fca254a541d53e9db0a2f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 135/151] fix: OSIS titles starting with a word or field

---
 BibleOrgSys/Formats/OSISXMLBible.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index d42cbb1..cdd85d0 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1522,9 +1522,11 @@ class OSISXMLBible( Bible ):
         if BibleOrgSysGlobals.debugFlag:
             if titleType: assert titleType in ('main','chapter','psalm','scope','sub','parallel','acrostic')
             if titleSubType: assert titleSubType == 'x-preverse'
+        startsWithField = not titleText and len(element) and element[0].tag in [OSISXMLBible.OSISNameSpace+tag for tag in ('w','hi','seg','abbr','transChange')]
+        if startsWithField: titleText = ''
         if chapterMilestone:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'title', verseMilestone, repr(titleText), repr(titleType), repr(titleSubType), repr(titleShort), repr(titleLevel) )
-            if titleText:
+            if titleText or startsWithField:
                 if not titleType and not titleShort and self.language=='ksw': # it's a Karen alternate chapter number
                     thisBook.addLine( 'cp', titleText )
                 elif titleType == 'parallel':
@@ -1543,7 +1545,7 @@ class OSISXMLBible( Bible ):
         else: # must be in the introduction if it's before all chapter milestones
         #if self.haveBook:
             #assert titleText
-            if titleText:
+            if titleText or startsWithField:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'title', repr(titleText) )
                 thisBook.addLine( 'imt', titleText ) # Could it also be 'is'?
         #else: # Must be a book group title
-- 
2.43.0


From d1e0760452c6a3a302a4ce7ae0fa021dc8f1b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 136/151] fix: OSIS verses inside titles

---
 BibleOrgSys/Formats/OSISXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index cdd85d0..9654b83 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1691,7 +1691,7 @@ class OSISXMLBible( Bible ):
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                 sublocation = "validateTitle: verse of " + locationDescription
-                verseMilestone = validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                 sublocation = "validateTitle: verse of " + locationDescription
                 self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
-- 
2.43.0


From 32d0a0e0bbb506ffb98d9ca9c03d670e7c4f3766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 137/151] fix: OSIS signed elements

---
 BibleOrgSys/Formats/OSISXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 9654b83..a662ba1 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2451,8 +2451,8 @@ class OSISXMLBible( Bible ):
             BibleOrgSysGlobals.checkXMLNoAttributes( element, location+" at "+verseMilestone, '9i6h', loadErrors )
             BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'vd62', loadErrors )
             BibleOrgSysGlobals.checkXMLNoTail( element, location+" at "+verseMilestone, 'fc3v3', loadErrors )
-            signedName = subelement.text
-            if BibleOrgSysGlobals.debugFlag and subelement.tail: halt
+            signedName = element.text
+            if BibleOrgSysGlobals.debugFlag and element.tail: halt
             thisBook.appendToLastLine( '\\sg {}\\sg*'.format( clean(signedName) ) )
         # end of validateSigned
 
-- 
2.43.0


From c7ee1930718ed8ac8986dc951a24b125d3f33adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 138/151] fix: text after an OSIS line break was lost

---
 BibleOrgSys/Formats/OSISXMLBible.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index a662ba1..7b85308 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2464,8 +2464,7 @@ class OSISXMLBible( Bible ):
             BibleOrgSysGlobals.checkXMLNoText( element, location+" at "+verseMilestone, 'cf4g', loadErrors )
             BibleOrgSysGlobals.checkXMLNoAttributes( element, location+" at "+verseMilestone, '5t3x', loadErrors )
             BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'sn52', loadErrors )
-            BibleOrgSysGlobals.checkXMLNoTail( element, location+" at "+verseMilestone, '3c5f', loadErrors )
-            thisBook.addLine( 'm', '' )
+            thisBook.addLine( 'm', clean(element.tail) if element.tail and element.tail.strip() else '' )
         # end of OSISXMLBible.validateLB
 
 
-- 
2.43.0


From 96b9482c1a81966b000c28aca03969836a9be459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 139/151] fix: white space after an OSIS line group added a
 line

---
 BibleOrgSys/Formats/OSISXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 7b85308..a216158 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2530,7 +2530,7 @@ class OSISXMLBible( Bible ):
                     logging.error( "q2b6 Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                     loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (q2b6)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-            if element.tail: # and lgTail!='\n': # This is the main text of the verse (outside of the quotation indents)
+            if element.tail and element.tail.strip(): # and lgTail!='\n': # This is the main text of the verse (outside of the quotation indents)
                 thisBook.addLine( 'm', clean(element.tail) )
             return verseMilestone
         # end of OSISXMLBible.validateLG
-- 
2.43.0


From fec7c6c7e1ce12eff7256934c6f0c2d6f40b840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 140/151] fix: reference text in an OSIS paragraph was lost

---
 BibleOrgSys/Formats/OSISXMLBible.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index a216158..81e502d 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2811,7 +2811,10 @@ class OSISXMLBible( Bible ):
                     if theType:
                         if theType == 'x-bookName':
                             thisBook.appendToLastLine( '\\bk {}\\bk*'.format( clean(reference) ) )
-                        elif BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, theType ); halt
+                        else:
+                            thisBook.appendToLastLine( clean(reference) or '' )
+                            if BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, theType ); halt
+                    else: thisBook.appendToLastLine( clean(reference) or '' )
                     pTail = subelement.tail
                     if pTail and pTail.strip(): # Just ignore XML spacing characters
                         thisBook.appendToLastLine( clean(pTail) )
-- 
2.43.0


From 3d432485d0acc7bbe28320fe0f087c4d058e79aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 141/151] fix: text after an OSIS foreign element was lost

---
 BibleOrgSys/Formats/OSISXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 81e502d..2851a0e 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2857,9 +2857,9 @@ class OSISXMLBible( Bible ):
                     sublocation = "validateParagraph: foreign of reference of " + locationDescription
                     BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation+" at "+verseMilestone, 'kd02', loadErrors )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation+" at "+verseMilestone, 'kls2', loadErrors )
-                    BibleOrgSysGlobals.checkXMLNoTail( subelement, sublocation+" at "+verseMilestone, 'ks10', loadErrors )
                     subreferenceText = subelement.text
                     thisBook.appendToLastLine( '\\tl {}\\tl*'.format( clean(subreferenceText) ) )
+                    if subelement.tail and subelement.tail.strip(): thisBook.appendToLastLine( clean(subelement.tail) )
                 else:
                     logging.error( "3kj6 Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                     loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (3kj6)".format( subelement.tag, subelement.text, location, verseMilestone ) )
-- 
2.43.0


From 8ee2c1626d1cd489d8ebf51e94c9d42297b03392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:13 +0000
Subject: [PATCH 142/151] fix: OSIS paragraph moved before a verse that already
 has text

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 32d1a41..b6663d5 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2144,7 +2144,7 @@ class InternalBibleBook:
 
             #nextMarker, nextText = self._rawLines[j+1] if j<lastJ else (None,None)
 
-            if lastMarker=='v' and marker in USFM_BIBLE_PARAGRAPH_MARKERS and text:
+            if lastMarker=='v' and len(lastText.split())<2 and marker in USFM_BIBLE_PARAGRAPH_MARKERS and text:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "increase: {} {}:{} lines: {}={} {}={}".format( self.BBB, C, V, lastMarker, lastText, marker, text ) )
                 newLines.append( (marker,'') ) # Put the new blank paragraph marker before the v
                 marker = 'v~' # Change the p marker to v~
-- 
2.43.0


From c9b5757341acbcb5a04fffd7c2f32f8e3f38effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 143/151] fix: ESFM word links with several place holders in
 the template

---
 BibleOrgSys/Formats/ESFMBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..1f7a367 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -730,8 +730,9 @@ class ESFMBible( Bible ):
                     # print( f"  {titleHTML=}")
                 # assert '<br>' not in titleHTML, f"{titleTemplate=} {titleHTML=}"
                 # assert '\n' not in titleHTML, f"{titleTemplate=} {titleHTML=}"
-                originalText = f'''{originalText[:match.start()]}<a {titleHTML}href="{linkTemplate.replace('{W}',word).replace('{BBB}',BBB).replace('{n}', digits)}">{word}</a>{originalText[match.end():]}'''
-                searchStartIndex = match.end() + len(linkTemplate) + len(titleHTML) + 4 # We've added at least that many characters
+                linkHTML = f'''<a {titleHTML}href="{linkTemplate.replace('{W}',word).replace('{BBB}',BBB).replace('{n}', digits)}">{word}</a>'''
+                originalText = f'{originalText[:match.start()]}{linkHTML}{originalText[match.end():]}'
+                searchStartIndex = match.start() + len(linkHTML) # Continue straight after our link
                 count += 1
             originalText = originalText.replace( 'SSsupP', '\\sup ' ).replace( 'ESsupP', '\\sup*' ) # Restores our 'hidden' HTML markup
             if count > 0:
-- 
2.43.0


From 8de96a642212e9983c023fc4953d23f545628a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 144/151] fix: e-Sword headings of lower levels and psalm
 titles were not closed

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index bd86c53..8a0e05e 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1356,7 +1356,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                     ourGlobals['lastLine'] = ourGlobals['lastLine'].rstrip() + '\\line ' # append the new paragraph marker to the previous line
                 composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
             elif marker == 's2': composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
-            elif marker in ( 's3','s4', 'sr','mr', 'd', ): composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~b~^~i~^~f0 '
+            elif marker in ( 's3','s4', 'sr','mr', 'd', ): composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
             elif marker in ( 'qa', 'r', ):
                 if marker=='r' and text and text[0]!='(' and text[-1]!=')': # Put parenthesis around this if not already there
                     text = '(' + text + ')'
-- 
2.43.0


From 30a05592e22186a1e0272ca4873091fb7848262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 145/151] fix: Markdown verses with a published number also had
 its markers in the text

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 095f4c5..5d023b7 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1609,7 +1609,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = ''
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # The published verse number is written with the verse
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
-- 
2.43.0


From f25b03128cc7c9918ac79fe6294d15d7403e464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 146/151] fix: chapter and verse numbers of internal markers in
 the Markdown text

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 5d023b7..c499a88 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1684,7 +1684,7 @@ class BibleWriter( InternalBible ):
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
                         if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
-                    if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
+                    if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie', 'c#','v=',): # Just ignore these lines
                         ignoredMarkers.add( marker )
                     elif marker in ('mt1','mt2','mt3','mt4', 'imt1','imt2','imt3','imt4',):
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
-- 
2.43.0


From 76fdbfe28523474e3406540880337082fefbb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 147/151] fix: text after a chapter number without a line
 between in Markdown

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c499a88..27f48d2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1701,7 +1701,7 @@ class BibleWriter( InternalBible ):
                     elif marker == 'c':
                         C, V = adjText, '0'
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
-                        myFile.write( "\n\nChapter {}".format( adjText ) )
+                        myFile.write( "\n\nChapter {}\n".format( adjText ) )
                     elif marker == 'vp#': # This precedes a v field and has the verse number to be printed
                         gotVP = adjText # Just remember it for now
                     elif marker == 'v':
-- 
2.43.0


From d09b922371fa42b4d2491e4168e6ac3b95e08155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 148/151] fix: Markdown notes which the text links to were not
 written

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 27f48d2..9712d85 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1716,6 +1716,8 @@ class BibleWriter( InternalBible ):
                     elif adjText:
                         textBuffer += (' ' if textBuffer else '') + __formatMarkdownVerseText( BBB, C, V, adjText, extras )
                 if textBuffer: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
+                for endMD in ourGlobals['footnoteMD'] + ourGlobals['endnoteMD'] + ourGlobals['xrefMD']:
+                    myFile.write( "\n{}\n".format( endMD ) ) # Write the notes that the text links to
 
                     #if verseByVerse:
                         #myFile.write( "{} ({}): {!r} {!r} {}\n" \
-- 
2.43.0


From 746212876ec7b9757a044a9e84a01ec9769ca321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 149/151] fix: HTML5 export into a folder which exists

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 9712d85..7cb4002 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2069,7 +2069,7 @@ class BibleWriter( InternalBible ):
         if not self.doneSetupGeneric: self.__setupWriter()
         if not outputFolderpath: outputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( 'BOS_HTML5_Export/' )
         WEBoutputFolder = os.path.join( outputFolderpath, 'Website/' )
-        if not os.access( outputFolderpath, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
+        if not os.access( WEBoutputFolder, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
 
         if not controlDict:
             controlDict, defaultControlFilename = {}, "To_HTML5_controls.txt"
-- 
2.43.0


From af6868051023abf1765b8e2d57bfcb9f8973bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:20 +0000
Subject: [PATCH 150/151] fix: published verse numbers in the web pages

---
 BibleOrgSys/BibleWriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7cb4002..ea968e8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1995,7 +1995,7 @@ class BibleWriter( InternalBible ):
                 elif extraType == 'sem':
                     extra = ''
                 elif extraType == 'vp':
-                    extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                    extra = '' # The published verse number is written with the verse
                 elif extraType == 'ww':
                     extra = '' # temp
                 else:
@@ -2408,11 +2408,11 @@ class BibleWriter( InternalBible ):
                     writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+V)] ); haveOpenVerse = True
                     if V == '1': # Different treatment for verse 1
                         writerObject.writeLineOpenClose( 'span', ' ', ('class','verseOnePrespace') )
-                        writerObject.writeLineOpenClose( 'span', V, ('class','verseOneNumber') )
+                        writerObject.writeLineOpenClose( 'span', text, ('class','verseOneNumber') )
                         writerObject.writeLineOpenClose( 'span', '&nbsp;', ('class','verseOnePostspace') )
                     elif V: # not verse one and not blank
                         writerObject.writeLineOpenClose( 'span', ' ', ('class','verseNumberPrespace') )
-                        writerObject.writeLineOpenClose( 'span', V, ('class','verseNumber') )
+                        writerObject.writeLineOpenClose( 'span', text, ('class','verseNumber') )
                         writerObject.writeLineOpenClose( 'span', '&nbsp;', ('class','verseNumberPostspace') )
 
                 elif marker in ('ms1','ms2','ms3','ms4',):
-- 
2.43.0


From b9348bf826a52b849bfb80d21a384877198a98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:20 +0000
Subject: [PATCH 151/151] fix: lists in the web pages were not closed or closed
 in the wrong order

---
 BibleOrgSys/BibleWriter.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index ea968e8..86b20d8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2329,6 +2329,13 @@ class BibleWriter( InternalBible ):
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C == '-1': V = str( int(V) + 1 ) # Count the lines before the first chapter
 
+                if haveOpenList and not marker.startswith(('li','ili')) \
+                and marker not in ('v','v~','p~', 'c','c#','cl','cp','vp#','nb') and marker not in OFTEN_IGNORED_USFM_HEADER_MARKERS:
+                    # Anything else ends the list
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
+                    for lx in list( haveOpenList ): writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
+
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -2389,7 +2396,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'c#':
                     if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toHTML5: have extras at c# at",BBB,C)
                     C = text
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenList:
                         #logger.warning( "toHTML5: Have chapter number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     # Put verse 1 id here on the chapter number (since we don't output a v1 number)
@@ -2403,7 +2410,7 @@ class BibleWriter( InternalBible ):
                     if gotVP: # this is the verse number to be published
                         text = gotVP
                         gotVP = None
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenList:
                         logger.warning( "toHTML5: Have verse number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                     writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+V)] ); haveOpenVerse = True
                     if V == '1': # Different treatment for verse 1
@@ -2444,10 +2451,6 @@ class BibleWriter( InternalBible ):
                     if text: writerObject.writeLineOpenClose( 'p', text, ('class','speaker') )
                 elif marker in ('p','m','pmo','pm','pmc','pmr','pi1','pi2','pi3','pi4','mi','cls','pc','pr','ph1','ph2','ph3','ph4',) \
                 or marker in ('q1','q2','q3','q4','qr','qc','qm1','qm2','qm3','qm4',):
-                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
-                    if haveOpenList:
-                        for lx in ('4','3','2','1',): # Close any open lists
-                            if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
                     if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
                     if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     writerObject.writeLineOpen( 'p', ('class',pqHTMLClassDict[marker]) ); haveOpenParagraph = True
@@ -2455,6 +2458,11 @@ class BibleWriter( InternalBible ):
                 elif marker in ('li1','li2','li3','li4','ili1','ili2','ili3','ili4',):
                     if marker.startswith('li'): m, pClass, iClass = marker[2], 'list'+marker[2], 'listItem'+marker[2]
                     else: m, pClass, iClass = marker[3], 'introductionList'+marker[3], 'introductionListItem'+marker[3]
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
+                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    for lx in list( haveOpenList ): # Close any open lists of other levels
+                        if lx != m: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
                     if not haveOpenList or m not in haveOpenList or not haveOpenList[m]:
                         writerObject.writeLineOpen( 'p', ('class',pClass) ); haveOpenList[m] = True
                     if marker.startswith('li'):
@@ -2470,7 +2478,7 @@ class BibleWriter( InternalBible ):
                 # Character markers
                 elif marker in ('v~','p~',):
                     #if BibleOrgSysGlobals.debugFlag and marker=='v~': assert haveOpenVerse
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenList:
                         logger.warning( "toHTML5: Have verse text {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     if not haveOpenVerse:
@@ -2493,11 +2501,11 @@ class BibleWriter( InternalBible ):
                     logger.critical( "toHTML5: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
 
+            if haveOpenVerse: writerObject.writeLineClose( 'span' )
             if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
             if haveOpenList:
                 for lx in ('4','3','2','1',): # Close any open lists
                     if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
-            if haveOpenVerse: writerObject.writeLineClose( 'span' )
             if haveOpenParagraph: writerObject.writeLineClose( 'p' )
             if haveOpenSection: writerObject.writeLineClose( 'section' )
             writeEndNotes( writerObject, ourGlobals )
-- 
2.43.0

