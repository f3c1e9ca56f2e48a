From 832b0383732c4174d34e6b9c88315c001e322d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 001/154] fix: only re-use a deleted pathname bin entry of the
 same size

---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index ebaf8e0..e358a8e 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -402,8 +402,8 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 			if ((binStatus == REC_STATUS_DELETED) || (binStatus == REC_STATUS_MOVED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
 				//  Did we already find space?
 			   if (ifltab[zdssKeys.kbinWithSpace] == 0) {
-				   //  Is this spot big enough?
-					if (pathSizeIn <= pathnameSize) {
+				   //  Is this spot the right size?  (zbinUpdate only re-uses an entry of the same size)
+					if (pathSizeIn == pathnameSize) {
 						//  Save the first address where this is found
 						//  (Note - this operation is only valid with the current pathname)
 						ifltab[zdssKeys.kbinWithSpace] = binAddress;
-- 
2.43.0


From e98bfc23cec45df269b1070350760d964156afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 002/154] fix: compare record sizes in whole longs before
 rewriting a record in place

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b51104d..d6f45f3 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -251,17 +251,18 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	if ((info[zdssInfoKeys.kinfoValues3Number] == 0) && (ztransfer->values3Number > 0))				fileHeader[zdssFileKeys.knumberDataArea3]++;
 	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
-	//  Compute original and new record sizes.
-	originalSize =
-		(int)info[zdssInfoKeys.kinfoInternalHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoHeader2Number] +
-		(int)info[zdssInfoKeys.kinfoUserHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoAllocatedSize];
-	newSize =
-		ztransfer->internalHeaderNumber +
-		ztransfer->header2Number +
-		ztransfer->userHeaderNumber +
-		ztransfer->totalAllocatedSize;
+	//  Compute original and new record sizes (in ints).
+	//  Each array starts on a long boundary, so each takes a whole number of longs
+	originalSize = 2 * (
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoInternalHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoHeader2Number]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoUserHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]));
+	newSize = 2 * (
+		numberLongsInInts(ztransfer->internalHeaderNumber) +
+		numberLongsInInts(ztransfer->header2Number) +
+		numberLongsInInts(ztransfer->userHeaderNumber) +
+		numberLongsInInts(ztransfer->totalAllocatedSize));
 
 
 	if (newSize > originalSize) {
-- 
2.43.0


From 52a1f247260bfe89da852f7e9fcb61346d1bc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 003/154] fix: close the temporary file descriptors of a sorted
 catalogue

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 986483d..dff0803 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -247,6 +247,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempUnsorted);
 		return -1;
 	}
+	close(fileId);
 	tempSorted=(char*)malloc(32*sizeof(char));
 	memset( tempSorted, 0, sizeof(tempSorted));
 	strcpy( tempSorted, "/tmp/cat_sorted-XXXXXX");
@@ -258,6 +259,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempSorted);
 		return -1;
 	}
+	close(fileId);
 #endif
 	if (!tempUnsorted) {
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
-- 
2.43.0


From d5fde6c602e418fc4e4d8fd1b46f550f902869ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 004/154] fix: return record type, hash, write time and CRC
 with a sorted catalogue, and honour its last write time filter

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index dff0803..5e16c7c 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -18,6 +18,39 @@
 
 
 
+//  Allocate the arrays that a catalog always returns (record type, etc.)
+static int sortedInfoAllocate(zStructCatalog *sortedStruct, zStructCatalog *nonSortedStruct)
+{
+	size_t number = (size_t)sortedStruct->listSize;
+
+	sortedStruct->lastWriteTimeFile = nonSortedStruct->lastWriteTimeFile;
+	if (nonSortedStruct->recordType) {
+		sortedStruct->recordType = (int *)calloc(number, WORD_SIZE);
+		if (!sortedStruct->recordType) return -1;
+	}
+	if (nonSortedStruct->pathnameHash) {
+		sortedStruct->pathnameHash = (long long *)calloc(number, LONG_SIZE);
+		if (!sortedStruct->pathnameHash) return -1;
+	}
+	if (nonSortedStruct->lastWriteTimeRecord) {
+		sortedStruct->lastWriteTimeRecord = (long long *)calloc(number, LONG_SIZE);
+		if (!sortedStruct->lastWriteTimeRecord) return -1;
+	}
+	if (nonSortedStruct->crcValues) {
+		sortedStruct->crcValues = (unsigned int *)calloc(number, sizeof(unsigned int));
+		if (!sortedStruct->crcValues) return -1;
+	}
+	return STATUS_OKAY;
+}
+
+static void sortedInfoCopy(zStructCatalog *sortedStruct, int iTo, zStructCatalog *nonSortedStruct, int iFrom)
+{
+	if (sortedStruct->recordType) sortedStruct->recordType[iTo] = nonSortedStruct->recordType[iFrom];
+	if (sortedStruct->pathnameHash) sortedStruct->pathnameHash[iTo] = nonSortedStruct->pathnameHash[iFrom];
+	if (sortedStruct->lastWriteTimeRecord) sortedStruct->lastWriteTimeRecord[iTo] = nonSortedStruct->lastWriteTimeRecord[iFrom];
+	if (sortedStruct->crcValues) sortedStruct->crcValues[iTo] = nonSortedStruct->crcValues[iFrom];
+}
+
 /**
 *  Function:	zcatInternalSort
 *
@@ -131,6 +164,9 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
 		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
 		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
+		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
+		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
+		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
 	}
 	sortAddresses = 0;
 
@@ -194,6 +230,11 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
 				}
 				sortedStruct->allocated[zSTRUCT_pathname] = 1;
+				if (sortedInfoAllocate(sortedStruct, nonSortedStruct) != STATUS_OKAY) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
+											zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct record information");
+				}
 				if (sortedStruct->boolIncludeDates) {
 					sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 					sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
@@ -209,6 +250,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 						if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
 							sortedStruct->pathnameList[icount] = nonSortedStruct->pathnameList[j];
 							nonSortedStruct->pathnameList[j] = 0;
+							sortedInfoCopy(sortedStruct, icount, nonSortedStruct, j);
 							if (sortedStruct->boolIncludeDates) {
 								sortedStruct->startDates[icount] = nonSortedStruct->startDates[j];
 								sortedStruct->endDates[icount]   = nonSortedStruct->endDates[j];
@@ -338,6 +380,11 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 							zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
 		}
 		sortedStruct->allocated[zSTRUCT_pathname] = 1;
+		if (sortedInfoAllocate(sortedStruct, nonSortedStruct) != STATUS_OKAY) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
+									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct record information");
+		}
 		if ((sortedStruct->boolIncludeDates) && (nonSortedStruct->startDates)) {
 			sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 			sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
@@ -418,6 +465,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 					sortedStruct->startDates[i] = nonSortedStruct->startDates[sequence];
 					sortedStruct->endDates[i]   = nonSortedStruct->endDates[sequence];
 				}
+				sortedInfoCopy(sortedStruct, i, nonSortedStruct, sequence);
 				if (sortedStruct->attributes) {}
 				if (sortedStruct->sortAddresses && nonSortedStruct->sortAddresses) {
 					sortedStruct->sortAddresses[i] = nonSortedStruct->sortAddresses[sequence];
-- 
2.43.0


From 5e398fddf8189352bcf30917eafa07b84a9d72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 005/154] fix: an undeleted record gets the primary status
 again

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 9d08a8b..368bc43 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -76,7 +76,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	if (boolUndelete) {
 		functionID = DSS_FUNCTION_zundelete_ID;
-		deleteStatus = (long long)REC_STATUS_VALID;
+		deleteStatus = (long long)REC_STATUS_PRIMARY;
 		readAction = REC_STATUS_DELETED;
 	}
 	else {
-- 
2.43.0


From b795e0bb3b4367b0b0fe6e2fc45b54b743fb5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 006/154] fix: release info block and data separately when
 deleting a renamed record

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 368bc43..bb92883 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -205,18 +205,19 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		}
 		else {
 			if (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE) {
-				//  Is this record contiguous?  (Supposed to be!)
+				//  Is this record contiguous?  (A rename may have moved the info block)
 				endAddress1 = ifltab[zdssKeys.kaddInfoLastPath] + (long long)releasedAmount;
 				endAddress2 = info[zdssInfoKeys.kinfoValues1Address] +
 					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues1Number]) +
-					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]);
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]) +
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues3Number]);
 				if (endAddress1 == endAddress2) {
 					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
 				}
 				else {
-					//  Shouldn't have this happen
-					//fileHeader[zdssFileKeys.kdead] += releasedAmount;
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					//  Release the info block and the data separately
+					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], numberInfo);
+					zreleaseFileSpace(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], releasedAmount - numberInfo);
 				}
 			}
 			//  Decrement counters
-- 
2.43.0


From c2782533b6428ec54852669631d04a272210a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 007/154] fix: release the space of a relocated record in longs

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index d6f45f3..9bbe5c6 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -287,13 +287,15 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
-		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize + numberInfo)) ==
-			(info[zdssInfoKeys.kinfoValues1Address] + info[zdssInfoKeys.kinfoAllocatedSize])) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize + numberInfo));
+		//  (addresses and released amounts are in longs; originalSize is in ints)
+		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize / 2 + numberInfo)) ==
+			(info[zdssInfoKeys.kinfoValues1Address] +
+				numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
+			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize / 2 + numberInfo));
 		}
 		else {
 			//  this would have been done in release space
-			fileHeader[zdssFileKeys.kdead] += (long long)(originalSize) + numberInfo;
+			fileHeader[zdssFileKeys.kdead] += (long long)(originalSize / 2) + numberInfo;
 		}
 
 		//  Update the version and expansionNumber values
-- 
2.43.0


From b07495ecf5bd3275a6c02f42d7165bf447cc1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 008/154] fix: keep double precision of untouched values when
 floats are stored into a regular series of doubles

---
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 57a197d..553f0d3 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -263,6 +263,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	int iposcNotes;
 	int jposcNotes;
 
+	double *doubleInput = 0;
+
 	int *headerRead3;
 	int sizeHeaderRead3 = 0;
 	int numberHeaderRead3;
@@ -373,6 +375,21 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				//  Very rare (not storing data, but quality or notes)
 				boolReadBlock = 0;
 			}
+			if ((dataType == DATA_TYPE_RTS) && (valueSize == 1) && (internalHeaderRead[INT_HEAD_valueElementSize] == 2)) {
+				//  Storing floats in a record of doubles.  Work with doubles,
+				//  so that the values that stay do not loose precision.
+				doubleInput = (double *)calloc((size_t)numberToStore + 1, sizeof(double));
+				if (!doubleInput) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+											zdssErrorSeverity.MEMORY_ERROR, pathname, "values array");
+				}
+				convertDataArray(values, (int *)doubleInput, numberToStore, 1, 2);
+				values = (int *)doubleInput;
+				valueSize = 2;
+				valueElementSize = 2;
+				dataType = DATA_TYPE_RTD;
+			}
 		}
 	}
 	
@@ -552,6 +569,7 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 					if (qualityRead) free(qualityRead);
 					if (notesRead)   free(notesRead);
 					if (cnotesRead)  free(cnotesRead);
+					if (doubleInput) free(doubleInput);
 					if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 						if (storageFlag == 1) {
 							zmessageDebug(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID, "Storage flag 1, no missing values read", "");
@@ -874,6 +892,10 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			internalHeader[INT_HEAD_valueElementSize] = oldINT_HEAD_valueElementSize;
 		}
 		else {
+			int valueSizeGiven = internalHeader[INT_HEAD_valueSize];
+			int valueElementSizeGiven = internalHeader[INT_HEAD_valueElementSize];
+			internalHeader[INT_HEAD_valueSize] = valueSize;
+			internalHeader[INT_HEAD_valueElementSize] = valueElementSize;
 			status = ztsWriteBlock(ifltab, tss, pathname,
 				&ival, 0, numberToStore,
 				&values[ipos], valueSize,
@@ -885,6 +907,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				userHeader, userHeaderNumber,
 				0, numberInBlock,
 				dataType);
+			internalHeader[INT_HEAD_valueSize] = valueSizeGiven;
+			internalHeader[INT_HEAD_valueElementSize] = valueElementSizeGiven;
 		}
 	}
 	else {
@@ -910,6 +934,7 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	if (cnotesBuff)  free(cnotesBuff);
 	if (headerRead3) free(headerRead3);  
 	if (userHeaderRead) free(userHeaderRead);
+	if (doubleInput) free(doubleInput);
 
 	return status;
 }
-- 
2.43.0


From 4307be9aa5c79afe54acd784245c5fde42b7d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 009/154] fix: day of week of dates before 1900

---
 heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
index 6aa505f..e74ca6b 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
@@ -27,7 +27,9 @@ int dayOfWeek(int julian)
 {
 	int iday;
 
-	iday = (julian % 7) + 1;
+	iday = julian % 7;
+	if (iday < 0) iday += 7;
+	iday++;
 	return iday;
 }
 
-- 
2.43.0


From e573799b4f1a26e00e05fb0148add9106b3030d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 010/154] fix: yearly offsets on the first of March in leap
 years

---
 heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c b/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c
index 85883b9..6b23bd4 100644
--- a/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c
+++ b/heclib/heclib_c/src/Public/ztsOffsetAdjustToOffset.c
@@ -119,7 +119,7 @@ int ztsOffsetAdjustToOffset(int offsetSeconds, int intervalSeconds, int *julian,
 		if (isLeapYear(year)) {
 			if (year > 0) {
 				//  Need to account for leap day
-				if (month > 2) {
+				if (offsetSeconds > 59 * SECS_IN_1_DAY) {
 					(*julian)++;
 				}
 			}
-- 
2.43.0


From 9fbe17e6b1b96aa85c4666397414912a9ae61d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 011/154] fix: replacing part of an irregular record dropped
 values after the replaced span

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index cc7f8c0..35d7fab 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -429,9 +429,10 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				//  Copy the times before the replacement
 				//  Are we before the start of the time window?  (if after, bypass this value)
 				//   is (timesRead[icountRead] < tss->timeWindow->startJulian)?
+				if (icountRead >= numberRead) break;
 				icompare = compareTimes(julianStartBlockDate, timesRead[icountRead], 0, timeGranularityRead,
 					tss->timeWindow->startJulian, tss->timeWindow->startTimeSeconds, 0, 1);
-				if ((icountRead < numberRead) && (icompare < 0) && (timesRead[icountRead] < timesToStore[0]) && !boolFromStartOfBlock) {
+				if ((icompare < 0) && (timesRead[icountRead] < timesToStore[0]) && !boolFromStartOfBlock) {
 					//  Copy "read"
 					if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 						convertDataType((void *)&valuesRead[icountRead], (void *)&f, valueElementSize, 1);
@@ -530,11 +531,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						icnotesPosOut += ispos;
 						icnotesPosToStore += ispos;
 					}
-					//  Count the characters in the read string and increment
-					if (cnotesReadLen > 0) {
-						ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
-						icnotesPosRead += ispos;
-					}
 				}
 				icountTotal++;
 				icountStore++;
@@ -547,7 +543,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		// Copy the remaining read data, if any
 		if (!boolToEndOfBlock) {
 			numberLeft = numberToStore + numberRead - icountTotal;
-			icnotesPosRead = 0;
+			combinedTotal = numberToStore + numberRead;
 			for (i=0; i<numberLeft; i++) {
 				if (icountTotal >= combinedTotal) {
 					break;
-- 
2.43.0


From f5137eb6cb96eaabfa1154eabea456d43a6e249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 012/154] fix: previous/next value when the window holds no
 value of the block

---
 .../heclib_c/src/Internal/ztsIrregReadBlock.c | 96 ++++++++-----------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 6fbefb5..266ccdd 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -502,19 +502,10 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		//  or ends within this block, we need to return that portion
 		ipos = 0;
 		lastValueStatus = -1;
-		if (boolRetrievePrevious) {
-			number = numberExpanded + 1;
-		}
-		else {
-			number = numberExpanded;
-		}
-		i = -1;
-		start = numberExpanded + 1;
+		//  First find the span of values to return, then copy it
+		start = -1;
 		end = -1;
-		for (k=0; k<number; k++) {
-			i++;
-			if (i == numberExpanded)
-				break;
+		for (i=0; i<numberExpanded; i++) {
 			boolInRange = isTimeInRange(timesThisRecord[i], &lastValueStatus, blockGranularity, julianStartBlockDate, timeWindow);
 			if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_INTERNAL_DIAG_2) || zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 				zmessageDebugInt(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID, "boolInRange for time: ", boolInRange);
@@ -524,60 +515,57 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 				cleanTime(&julian, &itime, blockGranularity);
 				ztsDateMessage(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID, "Time for this value: ", julian, itime);
 			}
-			if (boolRetrievePrevious && boolInRange) {
-				if (i > 0) i--;
-				boolRetrievePrevious = 0;
-			}
-			if (boolRetrieveSucceeding && !boolInRange && (ipos > 0)) {
-				boolInRange = 1;
-				boolRetrieveSucceeding = 0;
-			}
 			if (boolInRange) {
-				if (i < start) start = i;
-				if (i > end) end = i;
+				if (start < 0) start = i;
+				end = i;
 			}
-			if (boolInRange) {
-				timeArray[ipos] = timesThisRecord[i];
-				if (valuesSizeRequested > 0) {
-					if (profileDepthsSize == 0) {
-						jpos = ipos * valuesSizeRequested;
-						kpos = i * valuesSizeRequested;
-						for (j=0; j<valuesSizeRequested; j++) {
-							values[jpos+j] = valuesRead[kpos+j];
-						}
-					}
-					else {
-						jpos = ipos * valuesSizeRequested * profileDepthsSize;
-						kpos = i * valuesSizeRequested * profileDepthsSize;
-						for (j=0; j<valuesSizeRequested * profileDepthsSize; j++) {
-							values[jpos+j] = valuesRead[kpos+j];
-						}
+			else if (lastValueStatus > 0) {
+				break;
+			}
+		}
+		if (start < 0) {
+			//  No values within the window; i is the first value after it
+			start = i;
+			end = i - 1;
+		}
+		if (boolRetrievePrevious && (start > 0)) start--;
+		if (boolRetrieveSucceeding && (end < numberExpanded - 1)) end++;
+		for (i=start; i<=end; i++) {
+			timeArray[ipos] = timesThisRecord[i];
+			if (valuesSizeRequested > 0) {
+				if (profileDepthsSize == 0) {
+					jpos = ipos * valuesSizeRequested;
+					kpos = i * valuesSizeRequested;
+					for (j=0; j<valuesSizeRequested; j++) {
+						values[jpos+j] = valuesRead[kpos+j];
 					}
 				}
-				if (qualitySizeRequested > 0) {
-					jpos = ipos * qualitySizeRequested;
-					kpos = i * qualitySizeRequested;
-					for (j=0; j<qualitySizeRequested; j++) {
-						quality[jpos+j] = qualityRead[kpos+j];
+				else {
+					jpos = ipos * valuesSizeRequested * profileDepthsSize;
+					kpos = i * valuesSizeRequested * profileDepthsSize;
+					for (j=0; j<valuesSizeRequested * profileDepthsSize; j++) {
+						values[jpos+j] = valuesRead[kpos+j];
 					}
 				}
-				if (inotesSizeRequested > 0) {
-					jpos = ipos * inotesSizeRequested;
-					kpos = i * inotesSizeRequested;
-					for (j=0; j<inotesSizeRequested; j++) {
-						notes[jpos+j] = notesRead[kpos+j];
-					}
+			}
+			if (qualitySizeRequested > 0) {
+				jpos = ipos * qualitySizeRequested;
+				kpos = i * qualitySizeRequested;
+				for (j=0; j<qualitySizeRequested; j++) {
+					quality[jpos+j] = qualityRead[kpos+j];
 				}
-				ipos++;
 			}
-			else {
-				if (lastValueStatus > 0) {
-					break;
+			if (inotesSizeRequested > 0) {
+				jpos = ipos * inotesSizeRequested;
+				kpos = i * inotesSizeRequested;
+				for (j=0; j<inotesSizeRequested; j++) {
+					notes[jpos+j] = notesRead[kpos+j];
 				}
 			}
+			ipos++;
 		}
 		*numberRead = ipos;
-		if (end > -1) {
+		if (end >= start) {
 			iposNotes = 0;
 			//  We need to find the location of the first note requested
 			if (cnotesLength > 0) {
-- 
2.43.0


From 1cf357adec64b9f9fdd61e454b11aa6619a31a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 013/154] fix: window start with seconds on minute granularity
 included the value before it

---
 heclib/heclib_c/src/Utilities/DateTime/isTimeInRange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/isTimeInRange.c b/heclib/heclib_c/src/Utilities/DateTime/isTimeInRange.c
index b5c1b98..8b37d72 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/isTimeInRange.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/isTimeInRange.c
@@ -67,7 +67,7 @@ int isTimeInRange(int timeValue, int *lastValueStatus, int timeGranularitySecond
 	if (*lastValueStatus < 0) {
 		// Is it before?
 		jul = timeWindow->startJulian - baseDate;
-		ltime = (jul * (long long)(SECS_IN_1_DAY /timeGranularitySeconds)) + (timeWindow->startTimeSeconds / timeGranularitySeconds);
+		ltime = (jul * (long long)(SECS_IN_1_DAY /timeGranularitySeconds)) + ((timeWindow->startTimeSeconds + timeGranularitySeconds - 1) / timeGranularitySeconds);
 		if ((long long)timeValue < ltime) {
 			return 0;
 		}
-- 
2.43.0


From e5475bfc355615b489725b52b1674773bfed0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 014/154] fix: irregular blocks with values denser than a
 minute lost them on the next merge

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index a0f4577..c68afca 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -686,6 +686,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				logcialNumberData = 1;
 			}
 		}
+		//  Values more dense than the resolution used above are read back by this number, too
+		if (logcialNumberData < totalToStore) logcialNumberData = totalToStore;
 
 		//  Do we have cnotes to store and did not read the block?
 		if ((cnotesToStoreNumber > 0) && (!boolReadBlock)) {
-- 
2.43.0


From 7887d6f77ff8604865afe1067ada775f3366f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 015/154] fix: julian dates of years 4 and before (1 Jan 0004
 was two different days)

---
 .../heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c
index e7a1f02..c5b5014 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/yearMonthDayToJulian.c
@@ -69,11 +69,12 @@ int yearMonthDayToJulian (int year, int month, int day)
 		numberOfLeapDays = (intYear_1 / 4) + (intYear_1 / 400) - (intYear_1 / 100);
 	}
 	else if (year > 0) {
-		numberOfLeapDays = 1;
+		numberOfLeapDays = 0;
 	}
 	else {
+		//  Year zero is a leap year
 		intYear_1 = year + 1;
-		numberOfLeapDays = (intYear_1 / 4) + (intYear_1 / 400) - (intYear_1 / 100);
+		numberOfLeapDays = (year < 0) ? (intYear_1 / 4) + (intYear_1 / 400) - (intYear_1 / 100) - 1 : -1;
 	}
 	
 	
-- 
2.43.0


From ae50ac5983f9427f8ed8adadf71bf92eee26fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 016/154] fix: dates that do not exist (13/02/2000, 30Feb2000)
 were taken as other dates

---
 .../src/Utilities/DateTime/dateToYearMonthDay.c      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c b/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
index 5d8197e..c8cfd1f 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
@@ -255,6 +255,18 @@ int dateToYearMonthDay(const char *dateString, int *year, int *month, int *day)
 		}
 	}
 	//
+	// Be sure that this is a date that exists
+	//
+	if ((imonth < 1) || (imonth > 12)) return STATUS_NOT_OKAY;
+	if (iday > 28) {
+		if ((iday > 31) || ((iday > 30) && ((imonth == 4) || (imonth == 6) || (imonth == 9) || (imonth == 11)))) {
+			return STATUS_NOT_OKAY;
+		}
+		if ((imonth == 2) && ((iday > 29) || !isLeapYear(iyear))) {
+			return STATUS_NOT_OKAY;
+		}
+	}
+	//
 	// A sucessful Date Format was matched, set errorCode to zero...
 	//
 	*year = iyear;
-- 
2.43.0


From b03b556cb88fab1e48f6a42ddee57f91ad159681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 017/154] fix: minsToDateTime and millsToDateTime gave a wrong
 date and time for negative times

---
 heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c | 8 ++++++++
 heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c b/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c
index d0397d2..adbae8f 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/millsToDateTime.c
@@ -13,8 +13,16 @@ void millsToDateTime(long long mills, char *dateString, char *timeString, size_t
 	
 	secs = mills / 1000L;
 	millsPastSecond = (int)(mills - (secs * 1000L));
+	if (millsPastSecond < 0) {
+		secs--;
+		millsPastSecond += 1000;
+	}
 	jul = secs / SECS_IN_1_DAY;  // Since 01Jan1970
 	secondsPastMidnight = (int)(secs - (jul * SECS_IN_1_DAY));
+	if (secondsPastMidnight < 0) {
+		jul--;
+		secondsPastMidnight += SECS_IN_1_DAY;
+	}
 	julian = (int)jul + JULIAN_01JAN1970;  //  Since 01Jan1900
 
 	julianToDate(julian, 4, dateString, sizeofDateString);
diff --git a/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c b/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c
index dec668d..e7b7b6b 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/minsToDateTime.c
@@ -11,6 +11,10 @@ void minsToDateTime(int minsSince1900, char *dateString, char *timeString, size_
 
 	julian = minsSince1900 / MINS_IN_1_DAY;
 	minsSinceMidnight = minsSince1900 - (julian * MINS_IN_1_DAY);
+	if (minsSinceMidnight < 0) {
+		julian--;
+		minsSinceMidnight += MINS_IN_1_DAY;
+	}
 	julianToDate(julian, 4, dateString, sizeofDateString);
 	minutesToHourMin(minsSinceMidnight, timeString, sizeofTimeString);
 
-- 
2.43.0


From 97e03d0708186c8aad0f3653dfee03180808aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 018/154] fix: number of yearly periods between dates of
 different months

---
 heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
index 8e39f0d..ff677fc 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
@@ -162,8 +162,8 @@ int numberPeriods(int intervalSeconds,
 		else if ((intervalMinutes > 520000) && (intervalMinutes < 530000)) {
 			//  Yearly
 			numberPeriods = (yearEnd - yearStart) +
-							((monthEnd - monthStart) +
-							((dayEnd - dayStart) / 28) / 12);
+							(((monthEnd - monthStart) +
+							((dayEnd - dayStart) / 28)) / 12);
 		}
 		else {
 			//  Unknown - just do straight day computation 
-- 
2.43.0


From caf0e69cd6ee16f3d21ddb6b48a681263195d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 019/154] fix: getDateAndTime with the default granularity
 always gave 0000

---
 heclib/heclib_c/src/Utilities/DateTime/getDateAndTime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/getDateAndTime.c b/heclib/heclib_c/src/Utilities/DateTime/getDateAndTime.c
index 03af2d1..5f46a13 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/getDateAndTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/getDateAndTime.c
@@ -74,10 +74,10 @@ int getDateAndTime(int time, int timeGranularitySeconds, int julianBaseDate,
 		timeOfDay += numberInDay;
 	}
 
-	if (timeGranularitySeconds == SECOND_GRANULARITY) {
+	if (granularity == SECOND_GRANULARITY) {
 		secondsToTimeString(timeOfDay, 0, 2, hoursMins, sizeofHoursMins);
 	}
-	else if (timeGranularitySeconds == MINUTE_GRANULARITY) {
+	else if (granularity == MINUTE_GRANULARITY) {
 		minutesToHourMin(timeOfDay, hoursMins, sizeofHoursMins);
 	}
 	else {
-- 
2.43.0


From ef7cd05c1cc40be581f20b04b2c3e0cbf5e5e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 020/154] fix: a date with a negative day (1900-01--1) was
 accepted

---
 heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c b/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
index c8cfd1f..affc41a 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dateToYearMonthDay.c
@@ -257,7 +257,7 @@ int dateToYearMonthDay(const char *dateString, int *year, int *month, int *day)
 	//
 	// Be sure that this is a date that exists
 	//
-	if ((imonth < 1) || (imonth > 12)) return STATUS_NOT_OKAY;
+	if ((imonth < 1) || (imonth > 12) || (iday < 0)) return STATUS_NOT_OKAY;
 	if (iday > 28) {
 		if ((iday > 31) || ((iday > 30) && ((imonth == 4) || (imonth == 6) || (imonth == 9) || (imonth == 11)))) {
 			return STATUS_NOT_OKAY;
-- 
2.43.0


From 0872e4e85fb8871ddc0cb26b5c53abc908b3bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 021/154] fix: adding the calling function to an error code
 lowered its severity, hiding the error

---
 heclib/heclib_c/src/Internal/zerrorEncodeHigh.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
index 83b95f9..b08390e 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
@@ -32,8 +32,19 @@
 
 int zerrorEncodeHigh(int errorCodeIn, int highFunction)
 {
-	errorCodeIn +=  highFunction * 1000000;
-	return errorCodeIn;
+	int severity;
+	int highIn;
+	int lowFunction;
+	int dssError;
+	int status;
+
+	//  Encoded errors are negative and carry a severity; leave any other status as it is
+	severity = zerrorDecode(errorCodeIn, &highIn, &lowFunction, &dssError, &status);
+	if ((errorCodeIn >= 0) || (severity < 1)) {
+		return errorCodeIn;
+	}
+	//  Replace the high level function only; the severity and the remaining parts must stay the same
+	return errorCodeIn + ((highIn - highFunction) * 1000000);
 }
 
 
-- 
2.43.0


From 9142413b39b7f43e9627cf57c49daeb6e0498e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 022/154] fix: pathnames that are empty or longer than the
 maximum were stored truncated and broke the file checks

---
 heclib/heclib_c/src/Internal/zcheckInternal.c | 5 ++++-
 heclib/heclib_c/src/SemiPublic/zcheckInfo.c   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index e358a8e..f2b21db 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -122,7 +122,10 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 	ifltab[zdssKeys.kpathsThisHash] = 0;
 	ifltab[zdssKeys.ksameHash] = 0;
 	pathnameLength = (int)strlen(pathname);
-	if (pathnameLength > 392) pathnameLength = 392;
+	if ((pathnameLength < 1) || (pathnameLength >= MAX_PATHNAME_LENGTH)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zcheck_ID, zdssErrorCodes.INVALID_PATHNAME,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "Pathname is empty or too long");
+	}
 	pathSizeIn = numberLongsInBytes(pathnameLength);
 
 	//  Get the hash code for this pathname and keep in ifltab
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckInfo.c b/heclib/heclib_c/src/SemiPublic/zcheckInfo.c
index 6bcc114..1b83298 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckInfo.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckInfo.c
@@ -86,7 +86,7 @@ int zcheckInfo(long long *ifltab, const char *pathname, long long *info, int num
 		}
 	}
 
-	if ((numberErrors == 0) && ((info[zdssInfoKeys.kinfoPathnameLength] < 0) ||  (info[zdssInfoKeys.kinfoPathnameLength] > 391))) {
+	if ((numberErrors == 0) && ((info[zdssInfoKeys.kinfoPathnameLength] < 0) ||  (info[zdssInfoKeys.kinfoPathnameLength] >= MAX_PATHNAME_LENGTH))) {
 		numberErrors++;
 		if (zmessageLevel(ifltab, MESS_METHOD_FILE_CHECK_ID, MESS_LEVEL_GENERAL)) {
 			zmessageLong(ifltab, "zcheckInfo, Invalid Info Pathname Length: ", info[zdssInfoKeys.kinfoPathnameLength]);
-- 
2.43.0


From b43c34c8ba970229dc9cad5b626638d058c3e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 023/154] fix: zpathnameClean wrote its terminator beyond a
 full buffer

---
 heclib/heclib_c/src/Public/zpathnameClean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameClean.c b/heclib/heclib_c/src/Public/zpathnameClean.c
index 4cfdb8b..8a81122 100644
--- a/heclib/heclib_c/src/Public/zpathnameClean.c
+++ b/heclib/heclib_c/src/Public/zpathnameClean.c
@@ -72,7 +72,7 @@ int zpathnameClean(char *newPathname, size_t sizeofNewPathname, const char *oldP
 			//  Count slashes
 			slashCount++;
 		}
-		if (count >= (int)sizeofNewPathname) {
+		if (count >= (int)sizeofNewPathname - 1) {
 			//  Don't go beyond buffer length
 			break;
 		}
-- 
2.43.0


From cc0edfa8964b26d6f0bb44c4c4d3c36014cda7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 024/154] fix: zpathnameSetPart wrote its terminator beyond a
 full buffer

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3cd2d92..c7d99cd 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -95,7 +95,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		//  To do this, we must increment negatively.
 		diff = newLength - oldLength;
 		endPath = positions[6] + diff;
-		if (endPath > (int)sizeofPathname) {
+		if (endPath >= (int)sizeofPathname) {
 			//  We don't have enough room to expand the pathname!
 			return STATUS_NOT_OKAY;
 		}
-- 
2.43.0


From 3215365844542fa5c81f8001003aa5094e594087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 025/154] fix: zfindString matched text beyond the end of the
 string searched

---
 heclib/heclib_c/src/Public/zfindString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zfindString.c b/heclib/heclib_c/src/Public/zfindString.c
index 16d5b82..a3954b0 100644
--- a/heclib/heclib_c/src/Public/zfindString.c
+++ b/heclib/heclib_c/src/Public/zfindString.c
@@ -44,7 +44,7 @@ int zfindString(const char *fullString, int fullStringLength, const char *string
 		return -1;
 	}
 
-	for(i=0; i<fullStringLength; i++) {
+	for(i=0; i<=fullStringLength-stringToFindLength; i++) {
 		position = 0;
 		for (j=0; j<stringToFindLength; j++) {
 			i1 = toupper(fullString[i+j]);
-- 
2.43.0


From d642a8bfc8ecccf60cbeaa345ce9763b4ac0e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 026/154] fix: zpathnameSetPart read ahead of the pathname when
 a part grew by more than its position

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index c7d99cd..3d40eab 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -103,7 +103,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		pathname[endPath] = '\0';
 		endPath--;
 		//  Move the end backwards
-		for (i=endPath; i>=end; i--) {
+		for (i=endPath; i>=end-1+diff; i--) {
 			pathname[i] = pathname[i-diff];
 		}
 		//  Now copy the new part into the old part's position
-- 
2.43.0


From 0d39bc95fa6c0f081a9d48bfbfe1549eed3b52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 027/154] fix: F-part time tags accepted day 00 and times after
 24:00:00

---
 heclib/heclib_c/src/Utilities/normalizeFPart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/normalizeFPart.c b/heclib/heclib_c/src/Utilities/normalizeFPart.c
index 9543824..70a0021 100644
--- a/heclib/heclib_c/src/Utilities/normalizeFPart.c
+++ b/heclib/heclib_c/src/Utilities/normalizeFPart.c
@@ -52,6 +52,7 @@ int validateTagTime(const char* value, int includeSeconds) {
 	if (includeSeconds) {
 		sec = value[14] - '0' + 10 * (value[13] - '0');
 	}
+	if (day < 1) return false;
 	switch (mon) {
 	case JAN:
 	case MAR:
@@ -82,7 +83,7 @@ int validateTagTime(const char* value, int includeSeconds) {
 	if (hr > 24 || (hr == 24 && min > 0)) return false;
 	if (min > 59) return false;
 	if (includeSeconds) {
-		if (sec > 59) return false;
+		if (sec > 59 || (hr == 24 && sec > 0)) return false;
 	}
 	return true;
 }
-- 
2.43.0


From 5c3089d3abb511ba44db40a822a52094d5b8b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 028/154] fix: time series were stored and read under the F
 part as given instead of its normalized form

---
 heclib/heclib_c/src/Public/ztsRetrieve.c | 55 +++++++++++++-----------
 heclib/heclib_c/src/Public/ztsStore.c    | 47 ++++++++++----------
 2 files changed, 54 insertions(+), 48 deletions(-)

diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index ade0e6a..ccb257f 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -301,6 +301,35 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 		ztsMessTimeWindow(ifltab, DSS_FUNCTION_ztsRetrieve_ID, tss);
 	}
 
+	if (zgetVersion(ifltab) != 6) {
+		//--------------------------------------//
+		// normalize tagged F-part (DSS 7 only) //
+		//--------------------------------------//
+		char* normalized = NULL;
+		status = normalizeFPartInPathname(&normalized, tss->pathname);
+		if (status == normalizeFPartStatus.SUCCESS) {
+			if (tss->allocated[zSTRUCT_pathname]) {
+				free(tss->pathname);
+			}
+			tss->pathname = normalized;
+			tss->allocated[zSTRUCT_pathname] = TRUE;
+		}
+		else {
+			char message[2048];
+			sprintf(message, "Error normalizing F-part tags: %s", normalizeFPartErrorMessage(status));
+			status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieve_ID, zdssErrorCodes.INVALID_PATHNAME,
+				0, 0, zdssErrorSeverity.MEMORY_ERROR, tss->pathname, message);
+			if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
+				zmessage2(ifltab, "Pathname: ", tss->pathname);
+			}
+			if (normalized) {
+				free(normalized);
+				normalized = 0;
+			}
+			return status;
+		}
+	}
+
 	//  Determine if regular interval or irregular interval
 	//  and get time window information
 	//  Returns -1 if error, 0 if regular interval, 1 if irregular interval
@@ -374,32 +403,6 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 		
 	}
 	else {
-		//--------------------------------------//
-		// normalize tagged F-part (DSS 7 only) //
-		//--------------------------------------//
-		char* normalized = NULL;
-		status = normalizeFPartInPathname(&normalized, tss->pathname);
-		if (status == normalizeFPartStatus.SUCCESS) {
-			if (tss->allocated[zSTRUCT_pathname]) {
-				free(tss->pathname);
-			}
-			tss->pathname = normalized;
-			tss->allocated[zSTRUCT_pathname] = TRUE;
-		}
-		else {
-			char message[2048];
-			sprintf(message, "Error normalizing F-part tags: %s", normalizeFPartErrorMessage(status));
-			status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieve_ID, zdssErrorCodes.INVALID_PATHNAME,
-				0, 0, zdssErrorSeverity.MEMORY_ERROR, tss->pathname, message);
-			if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
-				zmessage2(ifltab, "Pathname: ", tss->pathname);
-			}
-			if (normalized) {
-				free(normalized);
-				normalized = 0;
-			}
-			return status;
-		}
 		if (intervalType == 0) {
 			status = ztsRetrieveReg7(ifltab, tss,
 									retrieveFlag, retrieveDoublesFlag, boolRetrieveQualityNotes);
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 1caa321..5edd187 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -279,6 +279,31 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 		ztsMessTimeWindow(ifltab, DSS_FUNCTION_ztsStore_ID, tss);
 	}
 
+	{
+		//--------------------------------------//
+		// normalize tagged F-part (DSS 7 only) //
+		//--------------------------------------//
+		char* normalized = NULL;
+		status = normalizeFPartInPathname(&normalized, tss->pathname);
+		if (status == normalizeFPartStatus.SUCCESS) {
+			if (tss->allocated[zSTRUCT_pathname]) {
+				free(tss->pathname);
+			}
+			tss->pathname = normalized;
+			tss->allocated[zSTRUCT_pathname] = TRUE;
+		}
+		else {
+			char message[2048];
+			sprintf(message, "Error normalizing F-part tags: %s", normalizeFPartErrorMessage(status));
+			status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID, zdssErrorCodes.INVALID_PATHNAME,
+				0, 0, zdssErrorSeverity.MEMORY_ERROR, tss->pathname, message);
+			if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
+				zmessage2(ifltab, "Pathname: ", tss->pathname);
+			}
+			return status;
+		}
+	}
+
 	//  Determine if regular interval or irregular interval
 	//  and get time window information
 	//  Returns -1 if error, 0 if regular interval, 1 if irregular interval
@@ -336,28 +361,6 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 
 
 	{
-		//--------------------------------------//
-		// normalize tagged F-part (DSS 7 only) //
-		//--------------------------------------//
-		char* normalized = NULL;
-		status = normalizeFPartInPathname(&normalized, tss->pathname);
-		if (status == normalizeFPartStatus.SUCCESS) {
-			if (tss->allocated[zSTRUCT_pathname]) {
-				free(tss->pathname);
-			}
-			tss->pathname = normalized;
-			tss->allocated[zSTRUCT_pathname] = TRUE;
-		}
-		else {
-			char message[2048];
-			sprintf(message, "Error normalizing F-part tags: %s", normalizeFPartErrorMessage(status));
-			status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID, zdssErrorCodes.INVALID_PATHNAME,
-				0, 0, zdssErrorSeverity.MEMORY_ERROR, tss->pathname, message);
-			if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
-				zmessage2(ifltab, "Pathname: ", tss->pathname);
-			}
-			return status;
-		}
 		//-----------------------------------------------//
 		// convert to native vertical datum if necessary //
 		//-----------------------------------------------//
-- 
2.43.0


From a54002275704ad923439f1665915c176f7120920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 029/154] fix: extracting a parameter from a delimited string
 took the end of another parameter's name, or the next item when the value was
 empty

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index c65eae7..2e53c05 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -43,7 +43,7 @@ const int meterUnitAliasCount = sizeof(meterUnitAliases) / sizeof(meterUnitAlias
 const char* dss_strcasestr(const char* haystack, const char* needle) {
     int   haystackLen = strlen(haystack);
     int   needleLen = strlen(needle);
-    for (int haystackPos = 0; haystackPos < haystackLen - needleLen; ++haystackPos) {
+    for (int haystackPos = 0; haystackPos <= haystackLen - needleLen; ++haystackPos) {
         if (!strncasecmp(haystack + haystackPos, needle, needleLen)) {
             return haystack + haystackPos;
         }
@@ -199,11 +199,20 @@ char* extractFromDelimitedString(
         strcat(param, separator);
     }
     char* value = NULL;
-    char* paramStart = matchCase ? (char*)strstr(*delimitedString, param) : (char*)dss_strcasestr(*delimitedString, param);
+    //-----------------------------------------------------------------//
+    // the parameter must begin an item, not be the end of another one //
+    //-----------------------------------------------------------------//
+    char* paramStart = *delimitedString;
+    while ((paramStart = matchCase ? (char*)strstr(paramStart, param) : (char*)dss_strcasestr(paramStart, param)) != NULL) {
+        char* cp = paramStart;
+        while (cp > *delimitedString && *(cp-1) != delimiter && isspace((unsigned char)*(cp-1))) --cp;
+        if (cp == *delimitedString || *(cp-1) == delimiter) break;
+        ++paramStart;
+    }
     if (paramStart) {
         char* valueStart = paramStart + strlen(param);
         char* valueEnd;
-        for (valueEnd = valueStart + 1; *valueEnd && (*valueEnd != delimiter); ++valueEnd);
+        for (valueEnd = valueStart; *valueEnd && (*valueEnd != delimiter); ++valueEnd);
         len = valueEnd - valueStart;
         value = (char*)mallocAndInit(len + 1);
         memcpy(value, valueStart, len);
-- 
2.43.0


From 0f575d3b3a0ab54bb6ff3e71ba363393cda0ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 030/154] fix: inserting into a delimited string without enough
 room left it truncated and unterminated

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 2e53c05..c3421a5 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -257,37 +257,32 @@ int insertIntoDelimitedString(
         free(existing);
         return 0;
     }
-    if (existing && overwriteExisting) {
-        free(extractFromDelimitedString(delimitedString, parameter, separator, TRUE, TRUE, delimiter));
-    }
-	int len = strlen(*delimitedString);
-    if (len > 0 && (*delimitedString)[len-1] != delimiter) {
-		(*delimitedString)[len++] = delimiter;
-    }
-	for (const char* cp = parameter; *cp && len < delimitedStringSize; ++cp) {
-		(*delimitedString)[len++] = *cp;
-	}
-    if (separator) {
-		for (const char* cp = separator; *cp && len < delimitedStringSize; ++cp) {
-			(*delimitedString)[len++] = *cp;
-		}
-    }
-    if (value) {
-		for (const char* cp = value; *cp && len < delimitedStringSize; ++cp) {
-			(*delimitedString)[len++] = *cp;
-		}
-    }
-	if (len > delimitedStringSize -2) {
-        if (existing) {
-            free(existing);
-        }
-        return -1;
-	}
-    (*delimitedString)[len++] = delimiter;
-    (*delimitedString)[len] = '\0';
+    //-----------------------------------------------------------------//
+    // don't change the string unless there is room for the new string //
+    //-----------------------------------------------------------------//
+    char* newString = (char*)mallocAndInit(strlen(*delimitedString) + 1);
+    strcpy(newString, *delimitedString);
     if (existing) {
+        free(extractFromDelimitedString(&newString, parameter, separator, TRUE, TRUE, delimiter));
         free(existing);
     }
+    int len = strlen(newString);
+    int addDelimiter = len > 0 && newString[len-1] != delimiter;
+    size_t needed = len + addDelimiter + strlen(parameter) + (separator ? strlen(separator) : 0) + (value ? strlen(value) : 0) + 2;
+    if (delimitedStringSize < 0 || needed > (size_t)delimitedStringSize) {
+        free(newString);
+        return -1;
+    }
+    char* cp = *delimitedString;
+    strcpy(cp, newString);
+    free(newString);
+    cp += len;
+    if (addDelimiter) {
+        *cp++ = delimiter;
+    }
+    cp += sprintf(cp, "%s%s%s", parameter, separator ? separator : "", value ? value : "");
+    *cp++ = delimiter;
+    *cp = '\0';
     return 0;
 }
 
-- 
2.43.0


From cb70e538c56f60f26ca4aa9c855820cb82790fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 031/154] fix: b64Decode reported a wrong length, accepted
 invalid characters and refused one group of characters

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 47 ++++++++-----------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index c3421a5..1c833c0 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -432,52 +432,43 @@ int b64Encode(char** encoded, const char* toEncode, int toEncodeLen) {
 // See verticalDatum.h for documentation
 //
 int b64Decode(char** decoded, int* decodedLen, const char* toDecode) {
+    *decodedLen = 0;
     int len = b64DecodedLen(strlen(toDecode));
-    if (len < 4) {
-        len = -1;
-    }
-    else if (*(toDecode + len - 2) == '=') {
-        len -= 2;
-    }
-    else if (*(toDecode + len - 1) == '=') {
-        --len;
-
-    }
     if (len < 0) {
         return len;
     }
-    *decoded = (char*)mallocAndInit(strlen(toDecode));
-    const char* c = toDecode;
-    char i[4];
+    *decoded = (char*)mallocAndInit(strlen(toDecode) + 1);
+    const unsigned char* c = (const unsigned char*)toDecode;
+    unsigned char i[4];
     char* o = *decoded;
     while (*c) {
         i[0] = base64bytes[c[0]];
         i[1] = base64bytes[c[1]];
         i[2] = base64bytes[c[2]];
         i[3] = base64bytes[c[3]];
-        if (i[0] == 255 || i[1] == 255) {
+        //-----------------------------------------//
+        // only the last group may have '=' at end //
+        //-----------------------------------------//
+        int last = c[4] == '\0';
+        int pad2 = last && c[2] == '=' && c[3] == '=';
+        int pad1 = last && c[2] != '=' && c[3] == '=';
+        if (i[0] == 255 || i[1] == 255 || (i[2] == 255 && !pad2) || (i[3] == 255 && !pad1 && !pad2)) {
             free(*decoded);
-            *decodedLen = 0;
+            *decoded = NULL;
             return -3;
         }
-        o[0] = i0_0 | i1_0;
-        o[1] = i1_1;
-        if (c[2] == '=') {
-            c += 2;
+        *o++ = i0_0 | i1_0;
+        if (pad2) {
             break;
         }
-        o[1] |= i2_1;
-        o[2] = i2_2;
-        if (c[3] == '=') {
-            c += 3;
+        *o++ = i1_1 | i2_1;
+        if (pad1) {
             break;
         }
-        o[2] |= i3_2;
-
+        *o++ = i2_2 | i3_2;
         c += 4;
-        o += 3;
     }
-    *decodedLen = (c - toDecode);
+    *decodedLen = o - *decoded;
     return 0;
 }
 #undef i0_0
@@ -549,7 +540,7 @@ char* decodeAndGunzip(char** results, const char* inputBuf) {
     zstr.zalloc    = Z_NULL;
     zstr.zfree     = Z_NULL;
     zstr.opaque    = Z_NULL;
-    zstr.avail_in  = decodedLen + 1;
+    zstr.avail_in  = decodedLen;
     zstr.next_in   = decodedBuf;
     zstr.avail_out = sizeof(textBuf);
     zstr.next_out  = textBuf;
-- 
2.43.0


From 9fbecac815108181dc2b528d7c4e1adf03be34e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 032/154] fix: gzipAndEncode failed for short texts and
 decodeAndGunzip for long ones (writing beyond its buffer at 4096 bytes)

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 1c833c0..555bcf3 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -521,10 +521,10 @@ char* findTextBetween(textBoundaryInfo* tbi, const char* buf, const char* after,
 // See verticalDatum.h for documentation
 //
 char* decodeAndGunzip(char** results, const char* inputBuf) {
-    char     textBuf[4096];
+    char*    textBuf;
+    size_t   textBufLen = 4096;
     int      decodedLen;
     char*    decodedBuf;
-    char*    outputBuf;
     int      rc;
     z_stream zstr;
     //--------------------------------//
@@ -542,8 +542,6 @@ char* decodeAndGunzip(char** results, const char* inputBuf) {
     zstr.opaque    = Z_NULL;
     zstr.avail_in  = decodedLen;
     zstr.next_in   = decodedBuf;
-    zstr.avail_out = sizeof(textBuf);
-    zstr.next_out  = textBuf;
     rc = inflateInit2(&zstr, 16+MAX_WBITS);
     if (rc != Z_OK) {
         free(decodedBuf);
@@ -552,13 +550,33 @@ char* decodeAndGunzip(char** results, const char* inputBuf) {
     //---------------------------------//
     // now perform the gzip decompress //
     //---------------------------------//
-    rc = inflate(&zstr, Z_FINISH);
-    if (rc != Z_OK && rc != Z_STREAM_END) {
+    textBuf = (char*)mallocAndInit(textBufLen + 1);
+    do {
+        zstr.next_out  = textBuf + zstr.total_out;
+        zstr.avail_out = textBufLen - zstr.total_out;
+        rc = inflate(&zstr, Z_NO_FLUSH);
+        if (rc == Z_OK && zstr.avail_out == 0) {
+            //------------------------------//
+            // not finished, need more room //
+            //------------------------------//
+            char* cp = (char*)realloc(textBuf, textBufLen * 2 + 1);
+            if (cp == NULL) {
+                rc = Z_MEM_ERROR;
+                break;
+            }
+            textBuf = cp;
+            textBufLen *= 2;
+        }
+    } while (rc == Z_OK);
+    if (rc != Z_STREAM_END) {
+        inflateEnd(&zstr);
+        free(textBuf);
         free(decodedBuf);
         return ERROR_ON_INFLATE;
     }
     rc = inflateEnd(&zstr);
     if (rc != Z_OK) {
+        free(textBuf);
         free(decodedBuf);
         return ERROR_ON_INFLATEEND;
     }
@@ -568,6 +586,7 @@ char* decodeAndGunzip(char** results, const char* inputBuf) {
     textBuf[zstr.total_out] = '\0';
     *results = (char*)mallocAndInit(strlen(textBuf)+1);
     strcpy(*results, textBuf);
+    free(textBuf);
     free(decodedBuf);
     return NULL;
 }
@@ -586,23 +605,26 @@ char* gzipAndEncode(char** results, const char* inputBuf) {
     //-----------------------------------//
     // setup structure for gzip compress //
     //-----------------------------------//
-    compressedBuf = (char*)mallocAndInit(inputLen);
+    outputLen = compressBound(inputLen) + 32; // 32 for gzip header and trailer
+    compressedBuf = (char*)mallocAndInit(outputLen);
     zstr.zalloc    = Z_NULL;
     zstr.zfree     = Z_NULL;
     zstr.opaque    = Z_NULL;
     zstr.avail_in  = inputLen;
     zstr.next_in   = (char*)inputBuf;
-    zstr.avail_out = inputLen;
+    zstr.avail_out = outputLen;
     zstr.next_out  = compressedBuf;
     //-------------------------//
     // gzip compress the input //
     //-------------------------//
     rc = deflateInit2(&zstr, Z_DEFAULT_COMPRESSION, Z_DEFLATED, 16+MAX_WBITS, 8, Z_DEFAULT_STRATEGY);
     if (rc != Z_OK) {
+        free(compressedBuf);
         return ERROR_ON_DEFLATEINIT2;
     }
     rc = deflate(&zstr, Z_FINISH);
-    if (rc != Z_OK && rc != Z_STREAM_END) {
+    if (rc != Z_STREAM_END) {
+        deflateEnd(&zstr);
         free(compressedBuf);
         return ERROR_ON_DEFLATE;
     }
-- 
2.43.0


From d9b1ee64ee398a86b2359bd06bcf5ce300de1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 033/154] fix: vertical datum XML with long tags, long offset
 blocks or stray tag ends made its parser write beyond its buffers

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 555bcf3..eb7ea3f 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -652,7 +652,7 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
     char* out;
     int   tagBufLen = 32;
     char* tagBuf = (char*)mallocAndInit(tagBufLen);
-    int   xmlBufLen = strlen(inputBuf) * 3;
+    int   xmlBufLen = strlen(inputBuf) * 3 + 1;
     char* xmlBuf = (char*)mallocAndInit(xmlBufLen);
     int   inTag = FALSE;
     int   tagPos;
@@ -679,6 +679,12 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                         free(xmlBuf);
                         return XML_IS_NOT_WELL_FORMED;
                     case '>' :
+                        if ((out - xmlBuf) + 3 + strlen(tagBuf) + strlen(in) > xmlBufLen) {
+                            // not the end of a tag of its own
+                            free(tagBuf);
+                            free(xmlBuf);
+                            return XML_IS_NOT_WELL_FORMED;
+                        }
                         *out++ = '>';
                         *out++ = '<';
                         *out++ = '/';
@@ -701,7 +707,7 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                     inTag = FALSE;
                 }
                 if (inTag) {
-                    if (tagPos >= tagBufLen) {
+                    if (tagPos >= tagBufLen - 1) {
                         tagBufLen *= 2;
                         char* cp = (char*)realloc(tagBuf, tagBufLen);
                         if (cp == NULL) {
@@ -712,6 +718,7 @@ char* expandEmptyXmlTags(char** outputBuf, const char* inputBuf) {
                         tagBuf = cp;
                     }
                     tagBuf[tagPos++] = *in;
+                    tagBuf[tagPos] = '\0';
                 }
                 *out++ = *in++;
         }
@@ -765,7 +772,11 @@ char* validateXmlStructure(const char* xml) {
             //-----------------//
             ++cp1;
             len = cp2 - cp1;
-            if (strncmp(cp1, tagNames[count-1], len)) {
+            if (count == 0 || len != strlen(tagNames[count-1]) || strncmp(cp1, tagNames[count-1], len)) {
+                for (int i = 0; i < count; ++i) {
+                    free(tagNames[i]);
+                }
+                free(tagNames);
                 free(buf);
                 return INVALID_XML_STRUCTURE;
             }
@@ -818,7 +829,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     char* errmsg = NULL;
     char*  xml1;
     char*  xml;
-    char   offsetBuf[2][128];
+    char   offsetBuf[2][1024];
     int    freeXml1;
     double dtmp;
     textBoundaryInfo tbi;
@@ -854,6 +865,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     }
     errmsg = validateXmlStructure(xml);
     if (errmsg) {
+        free(xml);
         return errmsg;
     }
     errmsg = findTextBetween(&tbi, xml, "<vertical-datum-info", "</vertical-datum-info>");
@@ -917,9 +929,17 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     //----------------------------------------//
     errmsg = findTextBetween(&tbi, xml, "<offset", "</offset>");
     if (errmsg == NULL && tbi.lenNonBlank != 0) {
+        if (tbi.lenWithBoundaries >= sizeof(offsetBuf[0])) {
+            free(xml);
+            return INVALID_OFFSET_BLOCK_IN_XML;
+        }
         strncpy(offsetBuf[0], tbi.firstWithBoundary, tbi.lenWithBoundaries);
         errmsg = findTextBetween(&tbi, tbi.lastWithBoundary, "<offset", "</offset>");
         if (errmsg == NULL && tbi.lenNonBlank != 0) {
+            if (tbi.lenWithBoundaries >= sizeof(offsetBuf[1])) {
+                free(xml);
+                return INVALID_OFFSET_BLOCK_IN_XML;
+            }
             strncpy(offsetBuf[1], tbi.firstWithBoundary, tbi.lenWithBoundaries);
         }
     }
-- 
2.43.0


From 170d006abf3a2bb22d4eaea93159c7746068312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 034/154] fix: a long vertical datum name in a user header or
 unit overflowed the caller's buffer

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index eb7ea3f..4ed4985 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -1172,7 +1172,8 @@ int	getCurrentVerticalDatum(
                 }
                 else {
                     iverticalDatum = IVERTICAL_DATUM_OTHER;
-                    strcpy(cverticalDatum, verticalDatum);
+                    strncpy(cverticalDatum, verticalDatum, cverticalDatumSize - 1);
+                    cverticalDatum[cverticalDatumSize - 1] = '\0';
                 }
                 //---------------------------------------//
                 // remove vertical datum from userHeader //
@@ -1240,7 +1241,8 @@ int	getCurrentVerticalDatum(
                 }
                 else {
                     iverticalDatum = IVERTICAL_DATUM_OTHER;
-                    strcpy(cverticalDatum, verticalDatum);
+                    strncpy(cverticalDatum, verticalDatum, cverticalDatumSize - 1);
+                    cverticalDatum[cverticalDatumSize - 1] = '\0';
                 }
             }
             free(unitSpec);
-- 
2.43.0


From 5acf1d1cdcb566f7be8792bfb3f812c0926009f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 035/154] fix: an empty data unit made getOffset read ahead of
 the unit

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 4ed4985..1f0898d 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -147,7 +147,7 @@ double getOffset(double offset, const char* offsetUnit, const char* _dataUnit) {
     // blank trim the data unit (shouldn't have to do this)
     char* dataUnit = (char*)mallocAndInit(strlen(_dataUnit)+1);
     strcpy(dataUnit, _dataUnit);
-    for (int i = strlen(dataUnit)-1; dataUnit[i] == 32; --i) {
+    for (int i = (int)strlen(dataUnit)-1; i >= 0 && dataUnit[i] == 32; --i) {
         dataUnit[i] = '\0';
     }
     if (offsetUnit == NULL || dataUnit == NULL) return UNDEFINED_VERTICAL_DATUM_VALUE;
-- 
2.43.0


From 70e633c26710fe21883a78195165f64d6afac838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 036/154] fix: storing vertical datum information failed when
 the location's supplemental text did not end with a delimiter

---
 heclib/heclib_c/src/Public/zpdStore.c | 2 +-
 heclib/heclib_c/src/Public/ztsStore.c | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4eddf2a..b4e0dcc 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -513,7 +513,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 							strlen(pds->locationStruct->supplemental) +
 							VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN +
 							strlen(compressed) +
-							3;
+							4;
 						pds->locationStruct->supplemental = (char*)realloc(
 							pds->locationStruct->supplemental,
 							newLen);
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 5edd187..a9c3e2c 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -565,7 +565,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								(int)strlen(tss->locationStruct->supplemental) +
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN +
 								(int)strlen(compressed) +
-								3;
+								4;
 							tss->locationStruct->supplemental = (char*)realloc(
 								tss->locationStruct->supplemental,
 								newLen);
@@ -578,9 +578,6 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								TRUE,
 								';');
 							if (status) { // unexpected error
-								if (vdiTs != &_vdiTs) {
-									free(vdiTs);
-								}
 								sprintf(
 									errmsg,
 									"\nVertical datum information could not be assigned to location record.\n"
-- 
2.43.0


From 9098b5cc139005bfce2e361ceb6f7943489bb21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 037/154] fix: datum conversion turned the missing flags -901
 and -902 into ordinary elevations

---
 heclib/heclib_c/src/Public/ztsRetrieve.c | 6 +++---
 heclib/heclib_c/src/Public/ztsStore.c    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index ccb257f..42f8133 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -591,12 +591,12 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 							//------------------------------//
 							for (int i = 0; i < tss->numberValues; ++i) {
 								if (tss->floatValues) {
-									if (tss->floatValues[i] != UNDEFINED_FLOAT) {
+									if (!zisMissingFloat(tss->floatValues[i])) {
 										tss->floatValues[i] += (float)offset;
 									}
 								}
-								else {
-									if (tss->doubleValues[i] != UNDEFINED_DOUBLE) {
+								else if (tss->doubleValues) {
+									if (!zisMissingDouble(tss->doubleValues[i])) {
 										tss->doubleValues[i] += offset;
 									}
 								}
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index a9c3e2c..be4da1d 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -493,7 +493,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				if (tss->floatValues) {
 					tmpFloatVals = (float*)calloc(tss->numberValues, sizeof(float));
 					for (int i = 0; i < tss->numberValues; ++i) {
-						tmpFloatVals[i] = tss->floatValues[i] - (float)offset;
+						tmpFloatVals[i] = zisMissingFloat(tss->floatValues[i]) ? tss->floatValues[i] : tss->floatValues[i] - (float)offset;
 					}
 					origFloatVals = tss->floatValues;
 					tss->floatValues = tmpFloatVals;
@@ -501,7 +501,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				else if (tss->doubleValues) {
 					tmpDoubleVals = (double*)calloc(tss->numberValues, sizeof(double));
 					for (int i = 0; i < tss->numberValues; ++i) {
-						tmpDoubleVals[i] = tss->doubleValues[i] - offset;
+						tmpDoubleVals[i] = zisMissingDouble(tss->doubleValues[i]) ? tss->doubleValues[i] : tss->doubleValues[i] - offset;
 					}
 					origDoubleVals = tss->doubleValues;
 					tss->doubleValues = tmpDoubleVals;
-- 
2.43.0


From a07e83b75ab343146127ed13e3bd760dc64b12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 038/154] fix: retrieving elevations that do not exist in a
 vertical datum reported a datum error instead of no data

---
 heclib/heclib_c/src/Public/ztsRetrieve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index 42f8133..87303bc 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -418,7 +418,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 		//--------------------------------------------------//
 		// convert to requested vertical datum if necessary //
 		//--------------------------------------------------//
-		if (pathnameIsElevTs(tss->pathname)) {
+		if ((status == STATUS_OKAY) && pathnameIsElevTs(tss->pathname)) {
 			//------------------------//
 			// parameter is elevation //
 			//------------------------//
-- 
2.43.0


From 37940b632ec1662a038023ceb5340ed3a355bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 039/154] fix: datum information returned in a user header was
 glued to a header text without ending delimiter

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 8 +++++---
 heclib/heclib_c/src/Public/ztsRetrieve.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4e28509..25ee252 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -800,10 +800,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								strlen(headerString)
 								+ VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN
 								+ strlen(vdiStr)
-								+ 3);
+								+ 4);
+							size_t headerLen = strlen(headerString);
 							sprintf(
-								headerString+strlen(headerString), 
-								"%s:%s;", 
+								headerString+headerLen, 
+								"%s%s:%s;", 
+								headerLen > 0 && headerString[headerLen-1] != ';' ? ";" : "",
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
 							free(pds->userHeader);
diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index 87303bc..0171b2d 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -487,10 +487,12 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 								strlen(headerString)
 								+ VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN
 								+ strlen(vdiStr)
-								+ 3);
+								+ 4);
+							size_t headerLen = strlen(headerString);
 							sprintf(
-								headerString+strlen(headerString),
-								"%s:%s;",
+								headerString+headerLen,
+								"%s%s:%s;",
+								headerLen > 0 && headerString[headerLen-1] != ';' ? ";" : "",
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
 							free(tss->userHeader);
-- 
2.43.0


From df60b9df070b8d1dc5493fdba11270edb34f94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 040/154] fix: adding vertical datum information to a user
 header of one word discarded the header

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index 1f0898d..461c7e0 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -1622,7 +1622,7 @@ int* copyVdiFromLocationStructToUserHeader(
         if (compressed) {
             do {
                 char* headerBuf = NULL;
-                if (*userHeaderNumber > 1) {
+                if (*userHeaderNumber > 0) {
                     headerBuf = userHeaderToString(userHeader, *userHeaderNumber);
                 }
                 int len;
-- 
2.43.0


From b740cc3a88534f969ebdeef2537c5e23c1b186ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 041/154] fix: paired data that could not be converted to a
 vertical datum left a freed user header in the caller's structure

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 25ee252..da9363b 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -808,7 +808,6 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								headerLen > 0 && headerString[headerLen-1] != ';' ? ";" : "",
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
-							free(pds->userHeader);
 						}
 					}
 					else {
@@ -1019,6 +1018,9 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 						"%s:%s;", 
 						VERTICAL_DATUM_USER_HEADER_PARAM,
 						cvertical_datum);
+					if (pds->userHeader && pds->allocated[zSTRUCT_userHeader]) {
+						free(pds->userHeader);
+					}
 					pds->userHeader = stringToUserHeader(headerString, &pds->userHeaderNumber);
 					pds->allocated[zSTRUCT_userHeader] = TRUE;
 					free(headerString);
-- 
2.43.0


From dae08fc48937d529b43e0340887a3d65d2f9d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 042/154] fix: labels stored with part of a paired data record
 were lost or cut

---
 heclib/heclib_c/src/Public/zpdStore.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index b4e0dcc..700b030 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -1064,10 +1064,13 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		//  If labels are being stored, add them in
 		//  len = pds->labelsLength  internalHeader[INT_HEAD_pdLabelsLength] = pds->labelsLength;
 		if (pds->labelsLength > 0) {
-			len = pds->labelsLength + ztransfer->internalHeader[INT_HEAD_pdLabelsLength];
+			//  (curves without a stored label have an empty one)
+			len = pds->labelsLength + ztransfer->internalHeader[INT_HEAD_pdLabelsLength] +
+				  ztransfer->internalHeader[INT_HEAD_pdNumberCurves] + 1;
 			clabels = (char *)calloc((size_t)len, 1);
-			clabelsRead = (char*)calloc(ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 1);
-			charInt(ztransfer->header2, clabelsRead, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 0, 0, 0);
+			clabelsRead = (char*)calloc((size_t)len, 1);
+			if (ztransfer->internalHeader[INT_HEAD_pdLabelsLength] > 0)
+				charInt(ztransfer->header2, clabelsRead, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], ztransfer->internalHeader[INT_HEAD_pdLabelsLength], 0, 0, 0);
 			ipos = 0;
 			iposRead = 0;
 			iposPds = 0;
@@ -1095,21 +1098,13 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				if (ipos >= len) {
 					break;
 				}
-				if (iposRead >= (ztransfer->header2Number * 4)) {
-					break;
-				}
 			}
 			if (clabelsRead) free(clabelsRead);
 			clabelsRead = 0;
 			originalSize = (int)ztransfer->info[zdssInfoKeys.kinfoHeader2Number];
 			if (ipos > ztransfer->internalHeader[INT_HEAD_pdLabelsLength]) {
 				newSize = numberIntsInBytes(ipos);
-				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = ipos;
-			}
-			else {
-				newSize = originalSize;
-			}
-			if (newSize > originalSize) {
+				if (newSize < originalSize) newSize = originalSize;
 				//  This is a pretty significant issue; paired data records are not designed
 				//  to be efficient at expansion
 				//  This may be a large data set and re-writing a expanded set may take a lot of resources
@@ -1157,7 +1152,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				//  Now we have the full record.  Replace the label array
 				free(ztransfer->header2);
 				ztransfer->header2 = (int *)calloc(newSize + 2, 4);
-				charInt(clabels, ztransfer->header2, ztransfer->internalHeader[INT_HEAD_pdLabelsLength], (newSize * 4), 1, 1, 0);
+				charInt(clabels, ztransfer->header2, ipos, (newSize * 4), 1, 1, 0);
 				ztransfer->header2Number = newSize;
 				ztransfer->internalHeader[INT_HEAD_pdLabelsLength] = newSize * 4;
 				//  RE-write the whole thing
-- 
2.43.0


From 3752b89bcbddd0288e4d6f0a2bcd0a937e94e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 043/154] fix: no labels were returned for a sub-range of
 ordinates of paired data

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index da9363b..603719e 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -375,7 +375,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			startCurve = pds->startingCurve - 1;
 			endCurve = pds->endingCurve;
 			if (startCurve < 0) startCurve = 0;
-			if (endCurve < 0) endCurve = 0;
+			if ((endCurve <= 0) || (endCurve > pds->numberCurves)) endCurve = pds->numberCurves;
 		}
 		count = 0;
 		ipos = 0;
-- 
2.43.0


From 22ab2af3332d9c793466bf9f74ab748c19884a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 044/154] fix: only the first of several labels stored with
 part of a paired data record was kept

---
 heclib/heclib_c/src/Public/zpdStore.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 700b030..80369e6 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -1083,6 +1083,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 						clabels[ipos++] = pds->labels[iposPds++];
 					}
 					clabels[ipos++] = '\0';
+					iposPds++;
 					len2 = (int)strlen(&clabelsRead[iposRead]);
 					iposRead += len2 + 1;
 					curveNumber++;
-- 
2.43.0


From 79535403b3e84d1338a5d688e9e8765439120a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 045/154] fix: storing a grid compressed by the caller read
 beyond the caller's data

---
 heclib/heclib_c/src/Public/zspatialGridStore.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zspatialGridStore.c b/heclib/heclib_c/src/Public/zspatialGridStore.c
index b97243d..c522327 100644
--- a/heclib/heclib_c/src/Public/zspatialGridStore.c
+++ b/heclib/heclib_c/src/Public/zspatialGridStore.c
@@ -230,7 +230,10 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 			gridStruct->_sizeofCompressedElements = preCompressedSize;
 			internalHeader[INT_HEAD_grid_sizeofCompressedElements] = gridStruct->_sizeofCompressedElements;
 			ztransfer->values3Number = numberIntsInBytes(preCompressedSize);
-			ztransfer->values3 = (int*)gridStruct->_data;
+			//  Copy, as the caller's buffer may not be a whole number of words
+			ztransfer->values3 = (int*)calloc((size_t)ztransfer->values3Number + 2, 4);
+			ztransfer->allocated[zSTRUCT_TRANS_values3] = 1;
+			memcpy(ztransfer->values3, gridStruct->_data, preCompressedSize);
 		}
 		else {
 			int dataSize = (gridStruct->_numberOfCellsX * gridStruct->_numberOfCellsY);
@@ -349,9 +352,6 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 	//  Transfer struct is ready to go.   Write it!
 	status = zwrite(ifltab, ztransfer);
 
-	if (preCompressedSize > 0) {
-		ztransfer->values3 = 0;
-	}
 	zstructFree(ztransfer);
 
 
-- 
2.43.0


From a3c46d827788e52b1f87bf7039b0cd16dc0c532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 046/154] fix: the version of a grid was stored but not
 returned

---
 heclib/heclib_c/src/Public/zspatialGridRetrieve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index 74f87e9..cc85607 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -244,6 +244,7 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 	// Can only handle version 1 records 
 	if (gridStruct->_structVersion == VERSION_100) {
 		gridStruct->_type = ztransfer->internalHeader[INT_HEAD_grid_type];
+		gridStruct->_version = ztransfer->internalHeader[INT_HEAD_grid_version];
 		gridStruct->_dataType = ztransfer->internalHeader[INT_HEAD_grid_dataType];
 		gridStruct->_lowerLeftCellX = ztransfer->internalHeader[INT_HEAD_grid_lowerLeftCellX];
 		gridStruct->_lowerLeftCellY = ztransfer->internalHeader[INT_HEAD_grid_lowerLeftCellY];
-- 
2.43.0


From d9285d585253d5971855377bf1bf7486a2b78ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 047/154] fix: storing a TIN without point labels crashed

---
 heclib/heclib_c/src/Public/zspatialTinStore.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index ffe88dd..8b4e4f0 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -194,7 +194,9 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
-	 charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
+	 if (tinStruct->pointLabel && (tinStruct->pointLabelLen > 0)) {
+		 charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
+	 }
 
 	 //  Values 1, x, y, value
 	 ztransfer->values1Number = 3 * tinStruct->numberPoints;
-- 
2.43.0


From a4e088060b91e2df11830d9726fc782bb5f0de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 048/154] fix: TIN point labels that filled an odd number of
 words were run together

---
 heclib/heclib_c/src/Public/zspatialTinStore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index 8b4e4f0..f922d24 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -190,7 +190,8 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	free(str);
 
 	//  Labels (char) array
-	ztransfer->userHeaderNumber = numberIntsInBytes(tinStruct->pointLabelLen);
+	//  (an even number of words, as zwrite takes an odd number for header text and adjusts it)
+	ztransfer->userHeaderNumber = numberLongsInBytes(tinStruct->pointLabelLen) * 2;
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
-- 
2.43.0


From 24c20f2c57e272a2fdc29b3b00607e1be6cc6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 049/154] fix: grids whose cells do not compress could not be
 stored when they filled a multiple of 16384 bytes

---
 heclib/heclib_c/src/Public/zlibcompress.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlibcompress.c b/heclib/heclib_c/src/Public/zlibcompress.c
index 53e0115..7b64b96 100644
--- a/heclib/heclib_c/src/Public/zlibcompress.c
+++ b/heclib/heclib_c/src/Public/zlibcompress.c
@@ -9,8 +9,7 @@
 
 int GetMaxCompressedLen(int size)
 {
-	int n16kBlocks = (size + 16383) / 16384; // round up any fraction of a block
-	return (size + 6 + (n16kBlocks * 5));
+	return (int)compressBound((uLong)size);
 }
 
 int compress_zlib(void* array, int size, void **buffer)
-- 
2.43.0


From 09d2fd83eee5ac8141e54b2fb48d1b6cb23e8b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 050/154] fix: location time zone names of 4, 8, 12...
 characters were returned unterminated

---
 heclib/heclib_c/src/Public/zlocationRetrieve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationRetrieve.c b/heclib/heclib_c/src/Public/zlocationRetrieve.c
index 4f95b51..a4ee2c0 100644
--- a/heclib/heclib_c/src/Public/zlocationRetrieve.c
+++ b/heclib/heclib_c/src/Public/zlocationRetrieve.c
@@ -201,7 +201,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 		nwords = ztransfer->values1Number - count;
 		len = nwords * 4;
 		if (len > 0) {
-			locationStruct->timeZoneName = (char *)malloc(len + 8);
+			locationStruct->timeZoneName = (char *)calloc(len + 8, 1);
 			locationStruct->allocated[zSTRUCT_timeZoneName] = 1;
 			charInt ((void *)&ztransfer->values1[count], locationStruct->timeZoneName, len, len, 0, 1, 0);
 		}
@@ -210,7 +210,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 	//  Supplemental information
 	if (ztransfer->values2Number > 0) {
 		len = ztransfer->values2Number * 4;
-		locationStruct->supplemental = (char *)malloc(len + 8);
+		locationStruct->supplemental = (char *)calloc(len + 8, 1);
 		locationStruct->allocated[zSTRUCT_otherInformation] = 1;
 		charInt ((void *)ztransfer->values2, locationStruct->supplemental, len, len, 0, 1, 0);
 	}
-- 
2.43.0


From 0ae5cda3c3510eda890f150ac07f799a19fb2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 051/154] fix: the location of data sets with long A and B
 parts could not be deleted

---
 heclib/heclib_c/src/Public/zlocationDelete.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationDelete.c b/heclib/heclib_c/src/Public/zlocationDelete.c
index 2106d06..a9f038d 100644
--- a/heclib/heclib_c/src/Public/zlocationDelete.c
+++ b/heclib/heclib_c/src/Public/zlocationDelete.c
@@ -5,21 +5,14 @@
 #include "heclib.h"
 #include "hecdssInternal.h"
 
-#define LOCATION_PATH "Location Info////"
-
-
-
 int zlocationDelete(long long *ifltab, const char* pathname)
 {
 	int status;
-	int positions[7];
-	char locationPathname[200];
-
-	zpathnamePartPositions (pathname, strlen(pathname), positions, 7);
-	stringCopy (locationPathname, sizeof(locationPathname), pathname, (size_t)positions[2]) ;
-	stringCat(locationPathname, sizeof(locationPathname), LOCATION_PATH, _TRUNCATE);
+	char *locationPathname;
 
+	locationPathname = zlocationPath(pathname);
 	status = zdelete(ifltab, locationPathname);
+	free(locationPathname);
 
 	return status;
 }
-- 
2.43.0


From c293eac3c8708e72e0e38bafafb0749b614cd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 052/154] fix: squeezing two files of the same name at the same
 time mixed or lost their records in a shared temporary file

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 0b76668..2987b20 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -1,7 +1,9 @@
 #ifdef _MSC_VER
 #include <io.h>
 #include <errno.h>
+#include <process.h>
 #include <windows.h>
+#define getpid _getpid
 #else
 #include <unistd.h>
 #include <stdint.h>
@@ -83,6 +85,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	char filename[MAX_PATH] = {0};
 	TCHAR tempDirW[MAX_PATH] = {0};
 	char tempName[MAX_PATH] = {0};
+	char uniqueName[48] = {0};
 	size_t len = 0;
 	int ihandle = 0;
 	int access = 0;
@@ -207,7 +210,10 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 				zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", tempName);
 		}
 		tempName[len-4] = '\0';
-		stringCat(tempName, sizeof(tempName), "_squ.dss", 8);
+		//  The temporary directory is shared:  another process may be squeezing
+		//  a file that has the same name, but is in a different directory.
+		snprintf(uniqueName, sizeof(uniqueName), "_%d_%d_squ.dss", getpid(), ihandle);
+		stringCat(tempName, sizeof(tempName), uniqueName, strlen(uniqueName));
 		//printf("-->%s<--\n", tempName);
 
 		//  Just in case the temporary file already exists...
-- 
2.43.0


From 79b0b8b98188dbf9503c6c05ae91e873e1457b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 053/154] fix: a catalogue with a '*x' part read before the
 start of parts shorter than x

---
 heclib/heclib_c/src/Internal/zcatComparePath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatComparePath.c b/heclib/heclib_c/src/Internal/zcatComparePath.c
index 6761858..f2cce58 100644
--- a/heclib/heclib_c/src/Internal/zcatComparePath.c
+++ b/heclib/heclib_c/src/Internal/zcatComparePath.c
@@ -173,6 +173,9 @@ int zcatComparePath(const char *cpath, int *partAction, int *lengths,
 			}
 			else if (partAction[i] == 3) {
 				//  Ends With
+				if (len < lengths[i]) {
+					return 0;
+				}
 				istart = len - lengths[i];
 				result = zstringCompare(&pathPart[istart], stringToFind, (size_t)lengths[i]);
 				if (!result) {
-- 
2.43.0


From 3c6cc860c7032631a2bd3ff302513e32b1a8ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 054/154] fix: the record type filter of a catalogue had no
 effect

---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6203871..13604b7 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -341,6 +341,9 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 								}
 							}
 						}
+						else {
+							boolFound = 0;
+						}
 					}
 					//  If it is a deleted record, be sure the info area is still there
 					if (boolFound && (statusWanted == REC_STATUS_DELETED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
-- 
2.43.0


From e2061df3b3e289b1b5f3471899f5dead4932e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 055/154] fix: cataloging deleted records read into an info
 array that may not be allocated

---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 13604b7..f2f0c36 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -110,7 +110,7 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 	int lengths[6];
 	int boolCompareWild;
 	
-	long long *info;
+	long long infoArea[10];
 	char cbuff[60];
 	long long binAddress;
 	long long *pathnameBin;
@@ -347,12 +347,11 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 					}
 					//  If it is a deleted record, be sure the info area is still there
 					if (boolFound && (statusWanted == REC_STATUS_DELETED) && (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE)) {
-						status = zget(ifltab, pathnameBin[icount+zdssBinKeys.kbinInfoAdd], (int *)ifltab[zdssKeys.kinfo], 10, 2);
+						status = zget(ifltab, pathnameBin[icount+zdssBinKeys.kbinInfoAdd], (int *)infoArea, 10, 2);
 						if (zisError(status)) {
 							return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
 						}
-						info = (long long *)ifltab[zdssKeys.kinfo];
-						if (info[zdssInfoKeys.kinfoStatus] != REC_STATUS_DELETED) {
+						if (infoArea[zdssInfoKeys.kinfoStatus] != REC_STATUS_DELETED) {
 							boolFound = 0;
 						}
 					}
-- 
2.43.0


From 9ce2a95c48eaf0913d185e6fbbe09a30fe659885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 056/154] fix: the saved sort order of the complete catalog was
 used for and overwritten by filtered catalogs

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 5e16c7c..3d0b025 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -43,6 +43,18 @@ static int sortedInfoAllocate(zStructCatalog *sortedStruct, zStructCatalog *nonS
 	return STATUS_OKAY;
 }
 
+static void copyRequest(zStructCatalog *toStruct, const zStructCatalog *fromStruct)
+{
+	if (!fromStruct) return;
+	toStruct->boolIncludeDates = fromStruct->boolIncludeDates;
+	toStruct->statusWanted = fromStruct->statusWanted;
+	toStruct->typeWantedStart = fromStruct->typeWantedStart;
+	toStruct->typeWantedEnd = fromStruct->typeWantedEnd;
+	toStruct->lastWriteTimeSearch = fromStruct->lastWriteTimeSearch;
+	toStruct->lastWriteTimeSearchFlag = fromStruct->lastWriteTimeSearchFlag;
+	toStruct->boolGetCRCvalues = fromStruct->boolGetCRCvalues;
+}
+
 static void sortedInfoCopy(zStructCatalog *sortedStruct, int iTo, zStructCatalog *nonSortedStruct, int iFrom)
 {
 	if (sortedStruct->recordType) sortedStruct->recordType[iTo] = nonSortedStruct->recordType[iFrom];
@@ -121,6 +133,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	int numberPathnames;
 	int status;
 	int sortListStatus;
+	int boolComplete;
 	int icount;
 	long long* sortAddresses;
 	long long *fileHeader;
@@ -145,13 +158,19 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		//  3 = Significant changes and sort list should not be used - do a full re-sort.
 	if (zgetVersion(ifltab) == 6) {
 		sortListStatus = 0;
+		boolComplete = 0;
 		if (sortedStruct) {
 			sortedStruct->boolIncludeDates = 0;
 		}
 	}
 	else {
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
-		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) {
+		//  The sort list is for the complete catalog only
+		boolComplete = !((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection));
+		if (sortedStruct && ((sortedStruct->statusWanted != REC_STATUS_VALID) || (sortedStruct->typeWantedStart != 0) || (sortedStruct->lastWriteTimeSearch > 0))) {
+			boolComplete = 0;
+		}
+		if (!boolComplete) {
 			sortListStatus = 0;
 		}
 		else {
@@ -159,15 +178,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		}
 	}
 
-	if (sortedStruct) {
-		nonSortedStruct->boolIncludeDates = sortedStruct->boolIncludeDates;
-		nonSortedStruct->statusWanted = sortedStruct->statusWanted;
-		nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
-		nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
-		nonSortedStruct->lastWriteTimeSearch = sortedStruct->lastWriteTimeSearch;
-		nonSortedStruct->lastWriteTimeSearchFlag = sortedStruct->lastWriteTimeSearchFlag;
-		nonSortedStruct->boolGetCRCvalues = sortedStruct->boolGetCRCvalues;
-	}
+	copyRequest(nonSortedStruct, sortedStruct);
 	sortAddresses = 0;
 
 	//  In this function, we will treat 0, 2 and 3 the same - do a full resort
@@ -192,11 +203,20 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortAddresses");
 		}
 		status = zgetCatalogSortAddresses(ifltab, sortAddresses, numberPathnames);
-		if (status < 0) {
+		if ((status < 0) || (numberPathnames != (int)fileHeader[zdssFileKeys.kcatSortNumber])) {
 			//  Very rare
 			sortListStatus = 0;
 			free(sortAddresses);
 			sortAddresses = 0;
+			//  Start over with a full sort
+			zstructFree(nonSortedStruct);
+			nonSortedStruct = zstructCatalogNew();
+			if (!nonSortedStruct) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+										zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for nonSortedStruct");
+			}
+			copyRequest(nonSortedStruct, sortedStruct);
 		}
 		else {
 			if ((catalogHandle > 0) || (fortranUnit > 0)) {
@@ -395,7 +415,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 			}
 		}
 		if (zgetVersion(ifltab) == 7) {
-			if ((numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
+			if (boolComplete && (numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
 				sortedStruct->sortAddresses = (long long*)calloc((size_t)sortedStruct->listSize, LONG_SIZE);
 				if (!sortedStruct->sortAddresses) {
 					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-- 
2.43.0


From 2951eefe9531d3f8554b6667f9086f7e74492e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 057/154] fix: sorted catalogs ordered long parts, time series
 dates and grid times wrongly, because part widths were mixed up and sort
 lines cut

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c |  2 +-
 heclib/heclib_c/src/Internal/zcatSortPath.c     | 10 ++++------
 heclib/heclib_c/src/Internal/zcatalogInternal.c |  7 +++++--
 heclib/heclib_c/src/Utilities/toFixedFields.c   |  8 ++++----
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 3d0b025..9737f86 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -137,7 +137,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	int icount;
 	long long* sortAddresses;
 	long long *fileHeader;
-	char cline[400];
+	char cline[MAX_PATHNAME_SIZE*3];
 	char *tempUnsorted;
 	char *tempSorted;
 	zStructCatalog *nonSortedStruct=0;
diff --git a/heclib/heclib_c/src/Internal/zcatSortPath.c b/heclib/heclib_c/src/Internal/zcatSortPath.c
index abef83a..6366a7e 100644
--- a/heclib/heclib_c/src/Internal/zcatSortPath.c
+++ b/heclib/heclib_c/src/Internal/zcatSortPath.c
@@ -79,7 +79,7 @@ int zcatSortPath(int handle, const char *pathname, size_t pathnameLen, int dataT
 	char cdate[MAX_PART_SIZE];
 	int interval;
 	char cinterval[MAX_PART_SIZE];
-	char cline[MAX_PATHNAME_SIZE*2];
+	char cline[MAX_PATHNAME_SIZE*3];
 
 
 	number = zpathnamePartPositions (pathname, pathnameLen, positions, 7);
@@ -125,17 +125,15 @@ int zcatSortPath(int handle, const char *pathname, size_t pathnameLen, int dataT
 			_snprintf_s(cinterval, sizeof(cinterval), _TRUNCATE, " %.10d", interval);
 			cpart[4] = cinterval;
 			partLen[4] = (int)strlen(cinterval);
-			if (partLen[4] > partMax[4]) {
-				partMax[4] = partLen[4];
-			}
 		}
 	}
 	else if ((dataType >= 400) && (dataType < 500)) {
-		status = spatialDateTime(cpart[3], &jdate, &mins);
+		stringCopy (cdate, sizeof(cdate), cpart[3], partLen[3]);
+		status = spatialDateTime(cdate, &jdate, &mins);
 		if (status == STATUS_OKAY) {
 			jdate += 100000;
 			mins /= SECS_IN_1_MINUTE;
-			_snprintf_s(cdate, sizeof(cdate), _TRUNCATE, " %.10d %d", jdate, mins);
+			_snprintf_s(cdate, sizeof(cdate), _TRUNCATE, " %.10d %.4d", jdate, mins);
 			cpart[3] = cdate;
 			partLen[3] = (int)strlen(cdate);
 		}
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index f2f0c36..69d189d 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -250,9 +250,12 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 	partMax[0] = (int)fileHeader[zdssFileKeys.kmaxA];
 	partMax[1] = (int)fileHeader[zdssFileKeys.kmaxB];
 	partMax[2] = (int)fileHeader[zdssFileKeys.kmaxC];
-	partMax[3] = (int)fileHeader[zdssFileKeys.kmaxF];
+	partMax[3] = (int)fileHeader[zdssFileKeys.kmaxD];
 	partMax[4] = (int)fileHeader[zdssFileKeys.kmaxE];
-	partMax[5] = (int)fileHeader[zdssFileKeys.kmaxD];
+	partMax[5] = (int)fileHeader[zdssFileKeys.kmaxF];
+	//  For sorting, dates and intervals are replaced by numbers
+	if (partMax[3] < 16) partMax[3] = 16;
+	if (partMax[4] < 11) partMax[4] = 11;
 
 	countRecs = 0;
 	countTotal = 0;
diff --git a/heclib/heclib_c/src/Utilities/toFixedFields.c b/heclib/heclib_c/src/Utilities/toFixedFields.c
index 9d1b2a5..94e552e 100644
--- a/heclib/heclib_c/src/Utilities/toFixedFields.c
+++ b/heclib/heclib_c/src/Utilities/toFixedFields.c
@@ -18,7 +18,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 	if(columnStart[0] > 0) {
 		for (i=0; i<columnStart[0]; i++) {
 			cstring[count++] = ' ';
-			if ((count-1) == (int)sizeofCstring) {
+			if (count == (int)sizeofCstring) {
 				cstring[count-1] = '\0';
 				return count;
 			}
@@ -30,7 +30,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 			diff = columnStart[j] - count;
 			for (i=0; i<diff; i++) {
 				cstring[count++] = ' ';
-				if ((count-1) == (int)sizeofCstring) {
+				if (count == (int)sizeofCstring) {
 					cstring[count-1] = '\0';
 					return count;
 				}
@@ -52,7 +52,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 			nblanks = diff - len;
 			for (i=0; i<nblanks; i++) {
 				cstring[count++] = ' ';
-				if ((count-1) == (int)sizeofCstring) {
+				if (count == (int)sizeofCstring) {
 					cstring[count-1] = '\0';
 					return count;
 				}
@@ -60,7 +60,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 		}
 		for (i=0; i<len; i++) {
 			cstring[count++] = cfield[i];
-			if ((count-1) == (int)sizeofCstring) {
+			if (count == (int)sizeofCstring) {
 				cstring[count-1] = '\0';
 				return count;
 			}
-- 
2.43.0


From d8edbd939c34ac2a7f718952c3dcc9b7a57570bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 058/154] fix: renaming a record that does not exist deleted
 the record with the new name, and time series were checked and sized with the
 wrong new name

---
 heclib/heclib_c/src/Public/zrename.c | 70 +++++++++++++++++-----------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 97396aa..3a2038d 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -72,6 +72,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	int numberChars;
 	int pathnameSize;
 	int istat = 0;
+	int boolSamePath;
 	int status;
 	int i;
 	int atEOF;
@@ -157,14 +158,53 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 	
 	//  Be sure the new pathname does not already exist
+	//  Be sure that the record to be renamed exists before doing anything
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zcheckInternal(ifltab, newPathname, 1);
+	status = zcheckInternal(ifltab, oldPathname, 1);
 	if (zisError(status)) {
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
-	if (status == STATUS_RECORD_FOUND) {
-		status = zdeleteInternal(ifltab, newPathname, 0);
+	if (status != STATUS_RECORD_FOUND) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
+
+	//  If the pathname is time series, do not allow the D or E parts to be renamed!
+	//  That data has to be transformed, not renamed
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
+	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
+		free(newPath);
+		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
+		start = positions[5];
+		end = positions[6];
+		len = (int)strlen(newPathname) + (int)strlen(oldPathname) + 1;
+		newPath = calloc(len, 1);
+		if (!newPath) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+				zdssErrorSeverity.MEMORY_ERROR,
+				newPathname, "Allocating space for modified pathname");
+		}
+		stringCopy(newPath, len, newPathname, positions[3]);
+		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
+		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
+		stringCat(newPath, len, &newPathname[start], (end - start));
+	}
+
+	ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	status = zcheckInternal(ifltab, newPath, 1);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
+	//  (With the D and E parts kept, the new name may still be the old one)
+	boolSamePath = (strlen(newPath) == strlen(oldPathname)) && zstringCompare(newPath, oldPathname, strlen(newPath));
+	if ((status == STATUS_RECORD_FOUND) && !boolSamePath) {
+		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
@@ -209,30 +249,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		return STATUS_RECORD_NOT_FOUND;
 	}
 
-
-	//  If the pathname is time series, do not allow the D or E parts to be renamed!
-	//  That data has to be transformed, not renamed
-	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
-	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
-		free(newPath);
-		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
-		start = positions[5];
-		end = positions[6];
-		len = (int)strlen(newPathname) + 12;
-		newPath = calloc(len, 1);
-		if (!newPath) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
-				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-				zdssErrorSeverity.MEMORY_ERROR,
-				newPathname, "Allocating space for modified pathname");
-		}
-		stringCopy(newPath, len, newPathname, positions[3]);
-		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
-		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
-		stringCat(newPath, len, &newPathname[start], (end - start));
-	}
-
-
 	//  First, mark the pathname bin status as remamed
 	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
 	binStatus = REC_STATUS_RENAMED;
-- 
2.43.0


From fb8c16224983f30e33e2d0bdf324d07c47914113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 059/154] fix: a renamed record was cataloged with the last
 write time of another record

---
 heclib/heclib_c/src/Public/zrename.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 3a2038d..3516560 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -365,6 +365,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 
 	//  Update the pathname bin area
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
+	ifltab[zdssKeys.kbinLastWrite] = info[zdssInfoKeys.kinfoLastWriteTime];
 	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
 
 	//  Now write the information area to disk
-- 
2.43.0


From 66c964243386eedb3371aeff298684de08a32a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 060/154] fix: the data CRC of a record took the length of its
 third array from its first

---
 heclib/heclib_c/src/Public/zgetDataCRC.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zgetDataCRC.c b/heclib/heclib_c/src/Public/zgetDataCRC.c
index d07a804..cf6b3a5 100644
--- a/heclib/heclib_c/src/Public/zgetDataCRC.c
+++ b/heclib/heclib_c/src/Public/zgetDataCRC.c
@@ -103,7 +103,7 @@ unsigned int zgetDataCRC(long long *ifltab, const char *pathname, unsigned int c
 		}
 	}
 	if (ztransfer->values3) {
-		len = ztransfer->values1Number * 4;
+		len = ztransfer->values3Number * 4;
 		if (endian) {
 			crcValue = crc32_block_endian1(crcValue, ztransfer->values3, len, crc_table);
 		}
-- 
2.43.0


From 30cc30c9549dcf710a8c146e779d9e70dc83db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 061/154] fix: a write refused because of its type still
 changed the last write time and dates of the record in the catalog

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 9bbe5c6..10c99d4 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -181,25 +181,6 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		numberLongsInInts(ztransfer->values3Number);
 	totalNumberInts *= 2;
 
-	//  Use the same last written (current time) for record and file header
-	icurrentTime = getCurrentTimeMillis();
-	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
-	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
-	//  Update pathname bin
-	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
-	//  Update the first and last julian in the pathname bin, if needed
-	//  These dates were put here by a time series write function
-	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
-	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
-	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
-	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
-
-	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
-	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
-	}
-
-
 	info = (long long *)ifltab[zdssKeys.kinfo];
 	//  Check that we are writing the same data type.
 	//  You typically cannot overwrite a different data type - must first delete the record
@@ -229,6 +210,24 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		}
 	}
 
+	//  Use the same last written (current time) for record and file header
+	icurrentTime = getCurrentTimeMillis();
+	fileHeader[zdssFileKeys.klastWriteTime] = icurrentTime;
+	ifltab[zdssKeys.kmyLastWriteTime] = fileHeader[zdssFileKeys.klastWriteTime];
+	//  Update pathname bin
+	ifltab[zdssKeys.kbinLastWrite] = icurrentTime;
+	//  Update the first and last julian in the pathname bin, if needed
+	//  These dates were put here by a time series write function
+	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
+	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
+	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
+
+	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+	}
+
 	//  Be sure we don't try to store negative lengths
 	if (ztransfer->internalHeaderNumber < 0) ztransfer->internalHeaderNumber = 0;
 	if (ztransfer->header2Number < 0) ztransfer->header2Number = 0;
-- 
2.43.0


From 965b1d52a8e0f9931158106d6fc5758e65a056d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 062/154] fix: merging irregular blocks copied only two ints of
 larger quality and note elements

---
 .../src/Internal/ztsIrregMergeBlocks.c        | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index 35d7fab..8a265e0 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -291,12 +291,12 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				if (qualityElementSize > 0) {
 					jcountIn  = icountStore * qualityElementSize;
 					jcountOut = icountTotal * qualityElementSize;
-					convertDataType(&qualityToStore[jcountIn], &quailtyOut[jcountOut], qualityElementSize, qualityElementSize);
+					convertIntArray(&qualityToStore[jcountIn], &quailtyOut[jcountOut], 1, qualityElementSize, qualityElementSize);
 				}
 				if (inoteElementSize > 0) {
 					jcountIn  = icountStore * inoteElementSize;
 					jcountOut = icountTotal * inoteElementSize;
-					convertDataType(&notesToStore[jcountIn], &notesOut[jcountOut], inoteElementSize, inoteElementSize);
+					convertIntArray(&notesToStore[jcountIn], &notesOut[jcountOut], 1, inoteElementSize, inoteElementSize);
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesToStoreLen == 0) {
@@ -338,12 +338,12 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				if (qualityElementSize > 0) {
 					jcountIn = icountRead * qualityElementSize;
 					jcountOut = icountTotal * qualityElementSize;
-					convertDataType(&qualityRead[jcountIn], &quailtyOut[jcountOut], qualityElementSize, qualityElementSize);
+					convertIntArray(&qualityRead[jcountIn], &quailtyOut[jcountOut], 1, qualityElementSize, qualityElementSize);
 				}
 				if (inoteElementSize > 0) {
 					jcountIn = icountRead * inoteElementSize;
 					jcountOut = icountTotal * inoteElementSize;
-					convertDataType(&notesRead[jcountIn], &notesOut[jcountOut], inoteElementSize, inoteElementSize);
+					convertIntArray(&notesRead[jcountIn], &notesOut[jcountOut], 1, inoteElementSize, inoteElementSize);
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesReadLen == 0) {
@@ -386,12 +386,12 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				if (qualityElementSize > 0) {
 					jcountIn  = icountStore * qualityElementSize;
 					jcountOut = icountTotal * qualityElementSize;
-					convertDataType(&qualityToStore[jcountIn], &quailtyOut[jcountOut], qualityElementSize, qualityElementSize);
+					convertIntArray(&qualityToStore[jcountIn], &quailtyOut[jcountOut], 1, qualityElementSize, qualityElementSize);
 				}
 				if (inoteElementSize > 0) {
 					jcountIn  = icountStore * inoteElementSize;
 					jcountOut = icountTotal * inoteElementSize;
-					convertDataType(&notesToStore[jcountIn], &notesOut[jcountOut], inoteElementSize, inoteElementSize);
+					convertIntArray(&notesToStore[jcountIn], &notesOut[jcountOut], 1, inoteElementSize, inoteElementSize);
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesToStoreLen == 0) {
@@ -458,12 +458,12 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 					if (qualityElementSize > 0) {
 						jcountIn  = icountRead * qualityElementSize;
 						jcountOut = icountTotal * qualityElementSize;
-						convertDataType(&qualityRead[jcountIn], &quailtyOut[jcountOut], qualityElementSize, qualityElementSize);
+						convertIntArray(&qualityRead[jcountIn], &quailtyOut[jcountOut], 1, qualityElementSize, qualityElementSize);
 					}
 					if (inoteElementSize > 0) {
 						jcountIn  = icountRead * inoteElementSize;
 						jcountOut = icountTotal * inoteElementSize;
-						convertDataType(&notesRead[jcountIn], &notesOut[jcountOut], inoteElementSize, inoteElementSize);
+						convertIntArray(&notesRead[jcountIn], &notesOut[jcountOut], 1, inoteElementSize, inoteElementSize);
 					}
 					if (cnotesOutSize > 0) {
 						if (cnotesReadLen == 0) {
@@ -514,12 +514,12 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				if (qualityElementSize > 0) {
 					jcountIn  = icountStore * qualityElementSize;
 					jcountOut = icountTotal * qualityElementSize;
-					convertDataType(&qualityToStore[jcountIn], &quailtyOut[jcountOut], qualityElementSize, qualityElementSize);
+					convertIntArray(&qualityToStore[jcountIn], &quailtyOut[jcountOut], 1, qualityElementSize, qualityElementSize);
 				}
 				if (inoteElementSize > 0) {
 					jcountIn  = icountStore * inoteElementSize;
 					jcountOut = icountTotal * inoteElementSize;
-					convertDataType(&notesToStore[jcountIn], &notesOut[jcountOut], inoteElementSize, inoteElementSize);
+					convertIntArray(&notesToStore[jcountIn], &notesOut[jcountOut], 1, inoteElementSize, inoteElementSize);
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesToStoreLen == 0) {
@@ -582,12 +582,12 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						if (qualityElementSize > 0) {
 							jcountIn = icountRead * qualityElementSize;
 							jcountOut = icountTotal * qualityElementSize;
-							convertDataType(&qualityRead[jcountIn], &quailtyOut[jcountOut], qualityElementSize, qualityElementSize);
+							convertIntArray(&qualityRead[jcountIn], &quailtyOut[jcountOut], 1, qualityElementSize, qualityElementSize);
 						}
 						if (inoteElementSize > 0) {
 							jcountIn = icountRead * inoteElementSize;
 							jcountOut = icountTotal * inoteElementSize;
-							convertDataType(&notesRead[jcountIn], &notesOut[jcountOut], inoteElementSize, inoteElementSize);
+							convertIntArray(&notesRead[jcountIn], &notesOut[jcountOut], 1, inoteElementSize, inoteElementSize);
 						}
 						if (cnotesOutSize > 0) {
 							if (cnotesReadLen == 0) {
-- 
2.43.0


From 7046b3d304ecc189fe16add57c24a39fe0b87493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 063/154] fix: a time series store without (or with smaller)
 quality or notes lost those of the rest of the block

---
 .../src/Internal/ztsIrregStoreBlock.c         | 38 +++++++++++++
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  | 55 ++++++++++++++++++-
 heclib/heclib_c/src/headers/hecdssInternal.h  |  3 +
 3 files changed, 95 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index c68afca..7c7b86b 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -277,6 +277,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 	int *valuesOut;
 	int *qualityOut;
 	int *notesOut;
+	int *qualityInput = 0;
+	int *notesInput = 0;
 
 	int combinedTotal;
 	int totalToStore;
@@ -384,6 +386,32 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				boolReadBlock = 0;
 			}
 
+			if (boolReadBlock) {
+				//  Quality and notes of the other values in the block must survive this store,
+				//  so store ours in elements as large as those already there
+				if (internalHeaderRead[INT_HEAD_qualityElementSize] > qualityElementSize) {
+					qualityInput = ztsWidenElements(qualityToStore, numberToStore, qualityElementSize, internalHeaderRead[INT_HEAD_qualityElementSize]);
+					if (!qualityInput) {
+						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+												zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating quality array");
+					}
+					qualityToStore = qualityInput;
+					qualityElementSize = internalHeaderRead[INT_HEAD_qualityElementSize];
+				}
+				if (internalHeaderRead[INT_HEAD_inotesElementSize] > inoteElementSize) {
+					notesInput = ztsWidenElements(notesToStore, numberToStore, inoteElementSize, internalHeaderRead[INT_HEAD_inotesElementSize]);
+					if (!notesInput) {
+						if (qualityInput) free(qualityInput);
+						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+												zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating notes array");
+					}
+					notesToStore = notesInput;
+					inoteElementSize = internalHeaderRead[INT_HEAD_inotesElementSize];
+				}
+			}
+
 			//  FOR EXPANSIONS, compute full length base on number in block from start of block
 			//  to end data, compared to end of block (i.e., like average interval)
 
@@ -486,6 +514,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 					if (notesRead) free(notesRead);
 					if (cnotesRead) free(cnotesRead);
 					if (cnotesStore) free(cnotesStore);
+					if (qualityInput) free(qualityInput);
+					if (notesInput) free(notesInput);
 					return status;
 				}
 
@@ -772,6 +802,14 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 		free(cnotesStore);
 		cnotesStore = 0;
 	}
+	if (qualityInput) {
+		free(qualityInput);
+		qualityInput = 0;
+	}
+	if (notesInput) {
+		free(notesInput);
+		notesInput = 0;
+	}
 	if (profileDepthsRead) {
 		free(profileDepthsRead);
 		profileDepthsRead = 0;
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 553f0d3..886c7a6 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -264,6 +264,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	int jposcNotes;
 
 	double *doubleInput = 0;
+	int *qualityInput = 0;
+	int *notesInput = 0;
 
 	int *headerRead3;
 	int sizeHeaderRead3 = 0;
@@ -390,6 +392,31 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				valueElementSize = 2;
 				dataType = DATA_TYPE_RTD;
 			}
+			//  Quality and notes of the other values in the block must survive this store,
+			//  so store ours in elements as large as those already there
+			if (internalHeaderRead[INT_HEAD_qualityElementSize] > qualityElementSize) {
+				qualityInput = ztsWidenElements(quality, numberToStore, qualityElementSize, internalHeaderRead[INT_HEAD_qualityElementSize]);
+				if (!qualityInput) {
+					if (doubleInput) free(doubleInput);
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+											zdssErrorSeverity.MEMORY_ERROR, pathname, "quality array");
+				}
+				quality = qualityInput;
+				qualityElementSize = internalHeaderRead[INT_HEAD_qualityElementSize];
+			}
+			if (internalHeaderRead[INT_HEAD_inotesElementSize] > inoteElementSize) {
+				notesInput = ztsWidenElements(notes, numberToStore, inoteElementSize, internalHeaderRead[INT_HEAD_inotesElementSize]);
+				if (!notesInput) {
+					if (doubleInput) free(doubleInput);
+					if (qualityInput) free(qualityInput);
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+											zdssErrorSeverity.MEMORY_ERROR, pathname, "notes array");
+				}
+				notes = notesInput;
+				inoteElementSize = internalHeaderRead[INT_HEAD_inotesElementSize];
+			}
 		}
 	}
 	
@@ -525,6 +552,12 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			numberInBlock, 0); 
 
 		
+		if ((cnotesSize > 0) && (cnotesReadLen == 0) && !zisError(status)) {
+			//  No notes in the existing block; give each of its values an empty one
+			//  (cnotesRead is already numberInBlock nulls)
+			cnotesReadLen = cnotesReadSize;
+		}
+
 		if (zisError(status)) {		
 			//  Free any space malloced
 			if (valuesRead)  free(valuesRead);
@@ -570,6 +603,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 					if (notesRead)   free(notesRead);
 					if (cnotesRead)  free(cnotesRead);
 					if (doubleInput) free(doubleInput);
+					if (qualityInput) free(qualityInput);
+					if (notesInput) free(notesInput);
 					if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 						if (storageFlag == 1) {
 							zmessageDebug(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID, "Storage flag 1, no missing values read", "");
@@ -831,7 +866,7 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		ifltab[zdssKeys.kdataFirstDate] = i4toi8(julianFirstValue, secondsFirstValue);
 		ifltab[zdssKeys.kdataLastDate] = i4toi8(julianLastValue, secondsLastValue);
 
-		if ((qualityElementSize > 0) || (inoteElementSize > 0) || (cnotesSize > 0)) {
+		if ((qualityElementSize > 0) || (inoteElementSize > 0) || (cnotesToStoreLen > 0)) {
 			//  If quality or notes, store the full block
 			numberToStore = numberInBlock;
 			blockStartPosition = 0;
@@ -935,6 +970,24 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	if (headerRead3) free(headerRead3);  
 	if (userHeaderRead) free(userHeaderRead);
 	if (doubleInput) free(doubleInput);
+	if (qualityInput) free(qualityInput);
+	if (notesInput) free(notesInput);
 
 	return status;
 }
+
+int *ztsWidenElements(const int *elements, int number, int sizeIn, int sizeOut)
+{
+	int *wide;
+	int i;
+	int j;
+
+	wide = (int *)calloc((size_t)number * sizeOut + 1, WORD_SIZE);
+	if (!wide) return 0;
+	for (i=0; i<number; i++) {
+		for (j=0; j<sizeIn; j++) {
+			wide[i * sizeOut + j] = elements[i * sizeIn + j];
+		}
+	}
+	return wide;
+}
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 06792d2..ead8125 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -191,6 +191,9 @@ int ztsRegRepeatCompress(int *dataIn, int numberIn, int sizeEachData,
 void ztsRegRepeatUncompress(int start, int end, int valueElementSize,
 						   int sizeRequested, int boolIsAValue,
 						   int *header2, int *dataIn, int *dataOut, int dataOutSize);
+//  Copies number elements of sizeIn ints into (calloc'ed) elements of sizeOut ints, zero filled
+int *ztsWidenElements(const int *elements, int number, int sizeIn, int sizeOut);
+
 int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pathname, 
 					int numberToStore,  int *values, int valueSize, int valueElementSize,
 					int *quality, int qualityElementSize,
-- 
2.43.0


From f9f8918baf3e4c98eb2044a9a550979127925af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 064/154] fix: text notes and user header retrieved over blocks
 with and without them were misplaced or lost

---
 .../heclib_c/src/Internal/ztsDisaggregate.c   |  4 ++--
 .../src/Internal/ztsGetSizesInternal.c        |  4 +++-
 .../heclib_c/src/Internal/ztsIrregReadBlock.c | 13 +++++++++++++
 .../heclib_c/src/Internal/ztsRetrieveIrreg7.c | 13 ++++++++++---
 .../heclib_c/src/Internal/ztsRetrieveReg7.c   | 19 +++++++++++++------
 5 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 4365777..07001e9 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -330,7 +330,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
@@ -955,7 +955,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
diff --git a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
index d6436ea..176eccd 100644
--- a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
+++ b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
@@ -181,7 +181,9 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 				recordSize->values3Number +=		(int)info[zdssInfoKeys.kinfoValues3Number];
 				recordSize->internalHeaderNumber =	(int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 				recordSize->header2Number =			(int)info[zdssInfoKeys.kinfoHeader2Number];
-				recordSize->userHeaderNumber =		(int)info[zdssInfoKeys.kinfoUserHeadNumber];
+				if ((int)info[zdssInfoKeys.kinfoUserHeadNumber] > recordSize->userHeaderNumber) {
+					recordSize->userHeaderNumber = (int)info[zdssInfoKeys.kinfoUserHeadNumber];
+				}
 				recordSize->allocatedSize  =		(int)info[zdssInfoKeys.kinfoAllocatedSize];
 				recordSize->lastWriteTimeMillis =	 info[zdssInfoKeys.kinfoLastWriteTime];
 				recordSize->tsTimeOffset =				internalHeader[INT_HEAD_timeOffset];
diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 266ccdd..4c57f85 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -565,6 +565,7 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 			ipos++;
 		}
 		*numberRead = ipos;
+		*totalNumberCnotesRead = 0;
 		if (end >= start) {
 			iposNotes = 0;
 			//  We need to find the location of the first note requested
@@ -604,6 +605,18 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 				}
 				*totalNumberCnotesRead = endPos - iposNotes;
 			}
+			//  Values without a note have an empty one (so that notes stay with their values)
+			if (sizeCNotesRemaning > 0) {
+				icount = 0;
+				for (i=0; i<*totalNumberCnotesRead; i++) {
+					if (cnotes[i] == '\0') icount++;
+				}
+				while ((icount < *numberRead) && (*totalNumberCnotesRead < sizeCNotesRemaning)) {
+					cnotes[*totalNumberCnotesRead] = '\0';
+					(*totalNumberCnotesRead)++;
+					icount++;
+				}
+			}
 		}
 	}
 	else {
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 85f59f0..1cdfb1a 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -132,6 +132,8 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 
 	int sizeCNotesRemaning;
 	int lengthCNotes;
+	int boolReadUserHeader;
+	int numberNotUsed;
 
 	int valueSize;
 	int qualityElementSize;
@@ -466,7 +468,6 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 	if (boolRetrieveQualityNotes) {
 		qualityElementSize = timeSeriesRecordSizes.tsQualityElementSize;
 		inoteElementSize = timeSeriesRecordSizes.tsInotesElementSize;
-		tss->userHeaderNumber = timeSeriesRecordSizes.userHeaderNumber;
 
 		if (qualityElementSize) {
 			tss->qualityArraySize = maxValues * qualityElementSize;
@@ -491,7 +492,8 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			tss->inoteElementSize = inoteElementSize;
 		}
 		else if (timeSeriesRecordSizes.tsCnotesLength) {
-			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
+			//  Values in blocks without notes get an empty note
+			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + maxValues;
 			tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 			if (!tss->cnotes) {
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID,
@@ -507,6 +509,8 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 		inoteElementSize = 0;
 	}
 
+	tss->userHeaderNumber = 0;
+
 	//  Main Loop
 	//  Generate a new pathname for each block, changing the D (D part) each time
 	//-----------------------------------------------------
@@ -552,6 +556,9 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			zmessageDebug(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID, "Block pathname: ", path);
 		}
 
+		//  Return the user header of the first record that has one
+		boolReadUserHeader = (tss->userHeaderNumber < 1);
+
 		status = ztsIrregReadBlock(ifltab, path, &nada,
 			buffer, bufferControl,
 			julianBlockDate, tss->timeWindow,
@@ -562,7 +569,7 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			&tss->cnotes[positionCnotes], sizeCNotesRemaning, &lengthCNotes,
 			depthValues, depthValuesArraySize, &depthValuesNumber, profileDepthsNumber,
 			internalHeader, internalHeaderArraySize , &internalHeaderNumber,
-			tss->userHeader, tss->userHeaderSize, &tss->userHeaderNumber,
+			tss->userHeader, boolReadUserHeader ? tss->userHeaderSize : 0, boolReadUserHeader ? &tss->userHeaderNumber : &numberNotUsed,
 			maxNumberToRead, &numberRead,
 			boolRetrievePrevious, boolRetrieveSubsequent);
 
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index affb916..56333d4 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -112,6 +112,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 	int internalHeaderArraySize  = INT_HEAD_SIZE;
 	int internalHeaderNumber;
 	int lengthCNotes;
+	int boolReadUserHeader;
+	int numberNotUsed;
 	int valueSize;
 	int qualityElementSize;
 	int inoteElementSize;
@@ -406,15 +408,16 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					tss->inoteElementSize = inoteElementSize;
 				}
 				if (timeSeriesRecordSizes.tsCnotesLength) {
-					tss->cnotes = (char *)calloc((size_t)timeSeriesRecordSizes.tsCnotesLength, CHAR_SIZE);
+					//  Values in blocks without notes, or not stored, get an empty note
+					tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + numberToRead;
+					tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 					if (!tss->cnotes) {
 						if (buffer) free(buffer);
 						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
-							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, timeSeriesRecordSizes.tsCnotesLength, 0,
+							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, tss->cnotesSize, 0,
 							zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating cnotes array");
 					}
 					tss->allocated[zSTRUCT_TS_cnotes] = 1;
-					tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
 				}
 			}
 			else {
@@ -521,7 +524,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 		positionNotes = currentPosition * (inoteElementSize);
 		positionCnotes = totalNumberCnotesRead;
 		sizeCNotesRemaning = tss->cnotesSize - positionCnotes;
-		if (timeSeriesRecordSizes.userHeaderNumber > 0) {
+		if (currentPosition == 0) tss->userHeaderNumber = 0;
+		if ((timeSeriesRecordSizes.userHeaderNumber > 0) && (currentPosition == 0)) {
 			if (tss->userHeader) {
 				if (tss->allocated[zSTRUCT_userHeader]) {
 					free(tss->userHeader);
@@ -543,6 +547,9 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 			}
 		}
 
+		//  Return the user header of the first record that has one
+		boolReadUserHeader = (tss->userHeaderNumber < 1);
+
 		//  Read the single record (block) and disaggregate, etc.
 		status = ztsRegReadBlock(ifltab, path, boolFound,
 			buffer, bufferControl,
@@ -553,7 +560,7 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 			profileDepths, profileDepthsNumberRequested,
 			profileDepthsArraySize, &profileDepthsNumberRead,
 			internalHeader, internalHeaderArraySize , &internalHeaderNumber,
-			tss->userHeader, tss->userHeaderSize, &tss->userHeaderNumber,
+			tss->userHeader, boolReadUserHeader ? tss->userHeaderSize : 0, boolReadUserHeader ? &tss->userHeaderNumber : &numberNotUsed,
 			numberToReadInBlock, blockStartPosition);
 
 		if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_USER_DIAG)) {
@@ -640,8 +647,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				charLong(&info[zdssInfoKeys.kinfoProgram], tss->programName, 0, zdssVals.numberProgram, 0, 1);
 				foundOne = 1;
 			} 
-			totalNumberCnotesRead += lengthCNotes;
 		}
+		totalNumberCnotesRead += lengthCNotes;
 
 
 		//  Increment block start date
-- 
2.43.0


From f06cf59e26e90ac6813c5c9348fcd98cb22f9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 065/154] fix: keep the last write time in the catalog when a
 record is copied or a file squeezed

---
 heclib/heclib_c/src/Internal/zcopyRecordInternal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 4685e94..375f2e9 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -297,6 +297,14 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 			zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
 		}
+		//  The pathname bin holds the last write time also (for the catalog)
+		ifltabTo[zdssKeys.kbinLastWrite] = infoTo[zdssInfoKeys.kinfoLastWriteTime];
+		status = zput(ifltabTo, ifltabTo[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd + zdssBinKeys.kbinLastWrite,
+			(int *)&ifltabTo[zdssKeys.kbinLastWrite], 1, 2);
+		if (zisError(status)) {
+			zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 		if (expansionNumber > 0) {
 			fileHeader = (long long *)ifltabTo[zdssKeys.kfileHeader];
 			fileHeader[zdssFileKeys.knumberExpansions] += expansionNumber;
-- 
2.43.0


From 4799f478b566321e91493c476d159c2b5ba88c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 066/154] fix: count aliases in zcheckPathnames, a sound file
 with aliases was reported as damaged

---
 heclib/heclib_c/src/SemiPublic/zcheckPathnames.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
index 65218d2..3ab5415 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
@@ -189,14 +189,15 @@ int zcheckPathnames(long long *ifltab)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zcheckPathnames_ID, "Number not found: ", numberErrors);
 	}
 	if (numberErrors == 0) {
-		if (fileHeader[zdssFileKeys.knumberRecords] != numberFound) {
+		//  Aliases have pathnames also
+		if (fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases] != numberFound) {
 			if (zmessageLevel(ifltab, MESS_METHOD_FILE_CHECK_ID, MESS_LEVEL_GENERAL)) {
 				zmessage(ifltab, "zcheckPathnames, More pathnames found in file than recorded in file header.");
 				_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %d, Number in file header: %d",
-					numberFound, (int)fileHeader[zdssFileKeys.knumberRecords]);
+					numberFound, (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]));
 				zmessage2(ifltab, "Number counted:", messageString);
 			}
-			numberErrors = (int)fileHeader[zdssFileKeys.knumberRecords] - numberFound;
+			numberErrors = (int)(fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases]) - numberFound;
 			if (numberErrors < 0) numberErrors = -numberErrors;
 		}
 	}
-- 
2.43.0


From 62584cd83e334540a129c936b43b6e92f2f4f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 067/154] fix: have aliases follow a record that is moved when
 it grows or is renamed

---
 heclib/heclib_c/src/Internal/zwriteExisting.c |  5 +++
 heclib/heclib_c/src/Public/zaliasAdd.c        | 31 +++++++++++++++++++
 heclib/heclib_c/src/Public/zrename.c          |  8 +++++
 heclib/heclib_c/src/headers/hecdssInternal.h  |  1 +
 4 files changed, 45 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 10c99d4..f45e59a 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -378,6 +378,11 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			numberLongsInInts(ztransfer->totalAllocatedSize);
 		//  We can use reclaimed space - even if it includes this same record
 		address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
+		//  Any aliases have to point to the new location
+		status = zaliasInfoMoved(ifltab, info, ifltab[zdssKeys.kaddInfoLastPath], address);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+		}
 		ifltab[zdssKeys.kaddInfoLastPath] = address;
 		fileHeader[zdssFileKeys.knumberExpansions] += 1;
 
diff --git a/heclib/heclib_c/src/Public/zaliasAdd.c b/heclib/heclib_c/src/Public/zaliasAdd.c
index 2fc540c..8ee9bc3 100644
--- a/heclib/heclib_c/src/Public/zaliasAdd.c
+++ b/heclib/heclib_c/src/Public/zaliasAdd.c
@@ -224,3 +224,34 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 	return status;
 }
 
+
+//  The info block of a record with aliases has been moved to a new address.
+//  Aliases are chained, with the first one added pointing to the info block;
+//  have that one point to the new address.  (info is the record's info block)
+int zaliasInfoMoved(long long *ifltab, long long *info, long long oldInfoAddress, long long newInfoAddress)
+{
+	long long aliasAddress;
+	long long binAlias[4];
+	int status;
+
+	aliasAddress = info[zdssInfoKeys.kinfoAliasesBinAddress];
+	while (aliasAddress != 0) {
+		status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
+		}
+		if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID, zdssErrorCodes.INVALID_BIN_STATUS,
+				(int)binAlias[zdssBinKeys.kbinStatus], aliasAddress, zdssErrorSeverity.CORRUPT_FILE, "", "");
+		}
+		if (binAlias[zdssBinKeys.kbinInfoAdd] == oldInfoAddress) {
+			status = zput(ifltab, (aliasAddress + zdssBinKeys.kbinInfoAdd), (int *)&newInfoAddress, 1, 2);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
+			}
+			break;
+		}
+		aliasAddress = binAlias[zdssBinKeys.kbinInfoAdd];
+	}
+	return STATUS_OKAY;
+}
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 3516560..33e8e73 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -347,6 +347,14 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 			info[i] = infoOld[i];
 		}
 		wroteAtEOF = 1;
+		//  Any aliases have to point to the new location
+		status = zaliasInfoMoved(ifltab, info, infoAddress, ifltab[zdssKeys.kaddInfoLastPath]);
+		if (zisError(status)) {
+			if (infoOld) free(infoOld);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+		}
 	}
 	else {
 		//  Info address remains the same, as well as it contents, except path
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index ead8125..85fce1f 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -114,6 +114,7 @@ int zmemoryGet(long long *ifltab, int arrayLoc, int size, const char* memName);
 void zmemoryFree(long long *ifltab);
 
 int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted);
+int zaliasInfoMoved(long long *ifltab, long long *info, long long oldInfoAddress, long long newInfoAddress);
 int zhash (long long *ifltab, const char *pathname, int pathnameLength, int *tableHash, long long *pathnameHash);
 int zisaCollection(char* pathname, size_t pathnameLength);
 int zcollectionsPath(char* pathname, size_t pathnameLength);
-- 
2.43.0


From a2c4d5e891ba4f4ca7a8d25fd50c5aca4cf5eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 068/154] fix: refuse to rename an alias, or a record to the
 name of an alias (the record was deleted)

---
 heclib/heclib_c/src/Public/zrename.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 33e8e73..74d157d 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -172,6 +172,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		free(newPath);
 		return STATUS_RECORD_NOT_FOUND;
 	}
+	//  An alias is only a name; it cannot be renamed itself (it can be removed and added)
+	if (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) {
+		free(newPath);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+			zdssErrorCodes.RECORD_DOES_NOT_EXIST, 0,
+			0, zdssErrorSeverity.WARNING, oldPathname, "Pathname is an alias");
+	}
 
 	//  If the pathname is time series, do not allow the D or E parts to be renamed!
 	//  That data has to be transformed, not renamed
@@ -203,6 +210,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 	//  (With the D and E parts kept, the new name may still be the old one)
 	boolSamePath = (strlen(newPath) == strlen(oldPathname)) && zstringCompare(newPath, oldPathname, strlen(newPath));
+	if ((status == STATUS_RECORD_FOUND) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
+		//  The new name is already used by an alias (possibly one to this record)
+		free(newPath);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+			zdssErrorCodes.RECORD_ALREADY_EXISTS, 0,
+			0, zdssErrorSeverity.WARNING, newPathname, "Pathname is an alias");
+	}
 	if ((status == STATUS_RECORD_FOUND) && !boolSamePath) {
 		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
-- 
2.43.0


From 9dacdd3463a77ad8c72d46b76d25469eb13685e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 069/154] fix: a new record written after an alias was looked
 up overwrote the alias' record

---
 heclib/heclib_c/src/Internal/zreadInfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInfo.c b/heclib/heclib_c/src/Internal/zreadInfo.c
index 8c7cfbd..7594ce7 100644
--- a/heclib/heclib_c/src/Internal/zreadInfo.c
+++ b/heclib/heclib_c/src/Internal/zreadInfo.c
@@ -133,8 +133,8 @@ int zreadInfo(long long *ifltab, const char *pathname, int statusWanted)
 		return status;
 	}
 
-	//  Is this an alias?
-	if (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) {
+	//  Is this an alias?  (The bin status is only set when a record was found)
+	if ((status == STATUS_RECORD_FOUND) && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS)) {
 		if (zmessageLevel(ifltab, MESS_METHOD_READ_ID, MESS_LEVEL_USER_DIAG)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zreadInfo_ID, "Pathname found is an alias; pathname: ", pathname);
 		}
-- 
2.43.0


From e7a7a04bb74f14243003bb020ab63e2bcd04251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 070/154] fix: walk down all aliases of a record in
 zreadInfoBlock, zcheckPathnames reported sound files as damaged

---
 heclib/heclib_c/src/Internal/zreadInfoBlock.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zreadInfoBlock.c b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
index 3c1e4f7..c540aae 100644
--- a/heclib/heclib_c/src/Internal/zreadInfoBlock.c
+++ b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
@@ -112,6 +112,7 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 {
 	int status;
 	int istat;
+	long long binAlias[8];
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_USER_DIAG)) {
@@ -126,6 +127,17 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 
 	// existing record
 	if (status == STATUS_RECORD_FOUND) {
+		//  The address given for an alias may be that of another alias' bin; walk down to the info block
+		while (ifltab[zdssKeys.kbinStatus] == REC_STATUS_ALIAS) {
+			istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (void *)binAlias, 8, 2);
+			if (zisError(istat)) {
+				return zerrorUpdate(ifltab, istat, DSS_FUNCTION_zreadInfo_ID);
+			}
+			if ((binAlias[0] == DSS_INFO_FLAG) || (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS)) {
+				break;
+			}
+			ifltab[zdssKeys.kaddInfoLastPath] = binAlias[zdssBinKeys.kbinInfoAdd];
+		}
 		//  Read in the info block
 		*numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 		if (*numberInfo > maxInfo)
-- 
2.43.0


From d3f175576c96dbc17cd2f507614a20461d895e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 071/154] fix: have aliases in the bin of a renamed record
 follow it

---
 heclib/heclib_c/src/Public/zrename.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 74d157d..2b87b26 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -361,14 +361,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 			info[i] = infoOld[i];
 		}
 		wroteAtEOF = 1;
-		//  Any aliases have to point to the new location
-		status = zaliasInfoMoved(ifltab, info, infoAddress, ifltab[zdssKeys.kaddInfoLastPath]);
-		if (zisError(status)) {
-			if (infoOld) free(infoOld);
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-			free(newPath);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
-		}
 	}
 	else {
 		//  Info address remains the same, as well as it contents, except path
@@ -390,6 +382,17 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	ifltab[zdssKeys.kbinLastWrite] = info[zdssInfoKeys.kinfoLastWriteTime];
 	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
 
+	//  Any aliases have to point to the new location (after the bin update, as they may be in the same bin)
+	if (wroteAtEOF) {
+		status = zaliasInfoMoved(ifltab, info, infoAddress, ifltab[zdssKeys.kaddInfoLastPath]);
+		if (zisError(status)) {
+			if (infoOld) free(infoOld);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+		}
+	}
+
 	//  Now write the information area to disk
 	ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
 	ifltab[zdssKeys.kinfoSize] = numberInfoNew;
-- 
2.43.0


From 2182fbf984a70732842b84aeeb5269eb38a5a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 072/154] fix: keep the file locked while the aliases of a
 record are deleted, the delete failed in multi-user access

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index bb92883..f8ac167 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -63,6 +63,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	long long endAddress2;
 	long long icurrentTime;
 	long long *fileHeader;
+	long long lockLevel;
 	char messageString[80];
 	char *path;
 	int numberInfo;
@@ -146,7 +147,11 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		if (info[zdssInfoKeys.kinfoAliasesBinAddress]) {
 			path = (char *)calloc(MAX_PATHNAME_SIZE, 1);
 			status = zaliasGetPrimary(ifltab, pathname, path, MAX_PATHNAME_SIZE);
+			//  Keep our lock, otherwise zaliasRemoveAll will release it when it is done
+			lockLevel = ifltab[zdssKeys.klockLevel];
+			ifltab[zdssKeys.klockLevel] = LOCKING_LEVEL_HIGH;
 			status = zaliasRemoveAll(ifltab, pathname);
+			ifltab[zdssKeys.klockLevel] = lockLevel;
 			ifltab[zdssKeys.kaddInfoLastPath] = 0;
 			status = zreadInfo(ifltab, path, readAction);
 			free(path);
-- 
2.43.0


From 7c97359c3b3a0be88957d1578a60c83b4e726326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 073/154] fix: pathname bin overrun after an in-place squeeze

---
 heclib/heclib_c/src/Internal/zpermRead.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zpermRead.c b/heclib/heclib_c/src/Internal/zpermRead.c
index 3944d29..466acdd 100644
--- a/heclib/heclib_c/src/Internal/zpermRead.c
+++ b/heclib/heclib_c/src/Internal/zpermRead.c
@@ -1,5 +1,6 @@
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "heclib7.h"
@@ -39,6 +40,7 @@ int zpermRead (long long *ifltab)
 
 	int status;
 	long long *fileHeader;
+	long long *pathnameBin;
 	long long iaddress = 0;
 
 
@@ -83,6 +85,15 @@ int zpermRead (long long *ifltab)
 	//  If we have not allocated the other arrays yet, do so now.
 	//  The file header we just read will have the sizes
 
+	//  The bin size changes when the file is squeezed in place; release a bin that has become too small
+	if (ifltab[zdssKeys.kpathBin] != 0) {
+		pathnameBin = (long long *)ifltab[zdssKeys.kpathBin];
+		if (fileHeader[zdssFileKeys.kbinSize] > pathnameBin[-1]) {
+			free(pathnameBin - 2);
+			ifltab[zdssKeys.kpathBin] = 0;
+		}
+	}
+
 	//  Pathname Bin
 	if (ifltab[zdssKeys.kpathBin] == 0) {
 		if ((fileHeader[zdssFileKeys.kbinSize] < 20) || (fileHeader[zdssFileKeys.kbinSize] >1000)){
-- 
2.43.0


From dcb6743b39578916a5ac09e7527c4895de6e403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 074/154] fix: keep aliases when a file is copied or squeezed

---
 heclib/heclib_c/src/Public/zcopyFile.c | 41 ++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 79f5f9e..d47d528 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -60,6 +60,39 @@
 *
 **/
 
+//  Add the aliases of one file to the same records in another (unless the name is used there)
+static int copyAliases(long long *ifltabFrom, long long *ifltabTo)
+{
+	zStructCatalog *catStruct;
+	char primary[MAX_PATHNAME_LENGTH];
+	int number;
+	int status;
+	int i;
+
+	catStruct = zstructCatalogNew();
+	if (!catStruct) {
+		return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyFile_ID,
+			zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+			zdssErrorSeverity.MEMORY_ERROR, "", "Allocating catalog struct");
+	}
+	catStruct->statusWanted = REC_STATUS_ALIAS;
+	status = STATUS_OKAY;
+	number = zcatalog(ifltabFrom, (const char *)0, catStruct, 0);
+	if (zisError(number)) {
+		status = number;
+	}
+	for (i=0; (i<number) && !zisError(status); i++) {
+		status = zaliasGetPrimary(ifltabFrom, catStruct->pathnameList[i], primary, sizeof(primary));
+		if (zisError(status)) break;
+		status = zcheck(ifltabTo, catStruct->pathnameList[i]);
+		if (status == STATUS_RECORD_NOT_FOUND) {
+			status = zaliasAdd(ifltabTo, primary, catStruct->pathnameList[i]);
+		}
+	}
+	zstructFree(catStruct);
+	return status;
+}
+
 int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 {
 #define FILE_BUFF_SIZE	4028
@@ -207,6 +240,14 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 		address += readSize;
 	}
 
+	//  Aliases are only names in the pathname bins; now that all primaries are there, add them
+	if ((zgetVersion(ifltabTo) == 7) && (statusWanted == REC_STATUS_VALID) && (fileHeader[zdssFileKeys.knumberAliases] > 0)) {
+		status = copyAliases(ifltabFrom, ifltabTo);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
+		}
+	}
+
 	//  Be sure to write to disk.
 	if (zgetVersion(ifltabTo) == 7) {
 		ifltabTo[zdssKeys.kwritingNow] = 1;
-- 
2.43.0


From 6cdd590c59e93d769995023da66e3288ae6551fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 075/154] fix: removing an alias failed when its record's name
 had been renamed away and written again

---
 heclib/heclib_c/src/Public/zaliasRemove.c    | 2 +-
 heclib/heclib_c/src/Public/zaliasRemoveAll.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index e34f052..e7bc88c 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -105,7 +105,7 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	infoAddressInBin = ifltab[zdssKeys.kaddInfoLastPath];
 
 	//  Read in the info block
-	status = zreadInfo(ifltab, aliasPathname, REC_STATUS_ANY);
+	status = zreadInfo(ifltab, aliasPathname, REC_STATUS_VALID);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index 9f20fde..dc7922c 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -87,7 +87,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 
 	//  Read in the info block
-	status = zreadInfo(ifltab, pathname, REC_STATUS_ANY);
+	status = zreadInfo(ifltab, pathname, REC_STATUS_VALID);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
-- 
2.43.0


From 8d3fcba3da5484e2980c30c6bb8b31b6d2fe72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 076/154] fix: numeric notes stored over text notes (or the
 reverse) overran the block, they now replace them

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 6 +++++-
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index 7c7b86b..f4c8ab3 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -399,7 +399,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 					qualityToStore = qualityInput;
 					qualityElementSize = internalHeaderRead[INT_HEAD_qualityElementSize];
 				}
-				if (internalHeaderRead[INT_HEAD_inotesElementSize] > inoteElementSize) {
+				//  (Numeric notes are replaced by text notes, a block cannot have both)
+				if ((cnotesToStoreNumber == 0) && (internalHeaderRead[INT_HEAD_inotesElementSize] > inoteElementSize)) {
 					notesInput = ztsWidenElements(notesToStore, numberToStore, inoteElementSize, internalHeaderRead[INT_HEAD_inotesElementSize]);
 					if (!notesInput) {
 						if (qualityInput) free(qualityInput);
@@ -524,6 +525,9 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				//  The maximum space needed will be the combined total of
 				//  that read and that to be stored (e.g., the block to
 				//  be stored is totally after the block read.)
+				//  Text notes are replaced by numeric notes
+				if (inoteElementSize > 0) cnotesReadLen = 0;
+
 				combinedTotal = numberToStore + numberRead;
 				timesOut = (int *)calloc((size_t)combinedTotal, WORD_SIZE);
 				if (!timesOut) {
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 886c7a6..9be39f1 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -405,7 +405,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				quality = qualityInput;
 				qualityElementSize = internalHeaderRead[INT_HEAD_qualityElementSize];
 			}
-			if (internalHeaderRead[INT_HEAD_inotesElementSize] > inoteElementSize) {
+			//  (Numeric notes are replaced by text notes, a block cannot have both)
+			if ((cnotesSize == 0) && (internalHeaderRead[INT_HEAD_inotesElementSize] > inoteElementSize)) {
 				notesInput = ztsWidenElements(notes, numberToStore, inoteElementSize, internalHeaderRead[INT_HEAD_inotesElementSize]);
 				if (!notesInput) {
 					if (doubleInput) free(doubleInput);
@@ -557,6 +558,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			//  (cnotesRead is already numberInBlock nulls)
 			cnotesReadLen = cnotesReadSize;
 		}
+		//  Text notes are replaced by numeric notes
+		if (inoteElementSize > 0) cnotesReadLen = 0;
 
 		if (zisError(status)) {		
 			//  Free any space malloced
-- 
2.43.0


From 92b9e07ee439f56636f21baa488e71c98b3f3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 077/154] fix: hec_dss_tsRetrieve crashed when quality was
 asked for and none is stored, and mixed up quality columns

---
 heclib/hecdss/hecdss.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ea4c44d..ff99796 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -361,8 +361,11 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
               timeArray[i] = tss->times[i];
             }
             valueArray[i] = tss->doubleValues[i];
-            if (qualityWidth > 0) // TO DO.. quality can have multiple columns
-               quality[i] = tss->quality[i];
+            for (int j = 0; j < qualityWidth; j++) {
+              // columns that are not stored (or no quality at all) are zero
+              quality[i * qualityWidth + j] = (tss->quality && j < tss->qualityElementSize) ?
+                tss->quality[i * tss->qualityElementSize + j] : 0;
+            }
 
         }
     }
-- 
2.43.0


From e179b423a13c38b9f0dbf44ba0fa3b7f153aa10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 078/154] fix: hec_dss_tsStoreRegular and
 hec_dss_tsStoreIregular never stored the quality they were given and leaked
 the float values

---
 heclib/hecdss/hecdss.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ff99796..0949f59 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -392,13 +392,16 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
       
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
-    if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
-      tss->quality = qualityArray;
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
   }
+  if (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
+    tss->quality = qualityArray;
+    tss->qualityArraySize = qualityArraySize;
+    tss->qualityElementSize = 1;
+  }
   tss->boolPattern = isTsPattern(pathname);
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
@@ -427,7 +430,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewIrregFloats(pathname,values, valueArraySize,times,
       timeGranularitySeconds, startDateBase,units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;
   }
   else {
     tss = zstructTsNewIrregDoubles(pathname, valueArray, valueArraySize, times,
@@ -437,6 +440,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
     // TO DO.. quality can be multi-dimensional (Is that used?)
     tss->quality = qualityArray;
     tss->qualityArraySize = qualityArraySize;
+    tss->qualityElementSize = 1;
   }
     
   tss->boolPattern = isTsPattern(pathname);
-- 
2.43.0


From 77ee6ccf3e69a9d487ebe99dc746247b8e7e2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 079/154] fix: the hecdss interface left the caller's string
 buffers unset when the stored string is empty

---
 heclib/hecdss/hecdss.c | 95 ++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 63 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 0949f59..85f5290 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -132,6 +132,17 @@ void hec_dss_array_copy_int(int* destination, const long destinationSize,
     destination[i] = source[i];
   }
 }
+// copies a retrieved string (an empty one if none is stored) to a buffer of the caller
+void hec_dss_string_copy(char* destination, const int destinationSize, const char* source) {
+  if (destination == NULL || destinationSize <= 0) {
+    return;
+  }
+  if (source == NULL) {
+    source = "";
+  }
+  stringCopy(destination, destinationSize, source, strlen(source));
+}
+
 HECDSS_API int hec_dss_open(const char* filename, dss_file** dss)
 {
     dss_file* f = (dss_file*)malloc(sizeof(dss_file));
@@ -292,12 +303,8 @@ HECDSS_API int hec_dss_tsRetrieveInfo(dss_file* pdss, const char* pathname,char*
       int intervalType = ztsProcessTimes(pdss->ifltab, tss, 0);
       status = ztsInternalHeaderUnpack(tss, transfer->internalHeader, transfer->internalHeaderNumber);
 
-      if (tss->units != NULL) {
-        stringCopy(units, unitsLength, tss->units, strlen(tss->units));
-      }
-      if (tss->type != NULL) {
-        stringCopy(type, typeLength, tss->type, strlen(tss->type));
-      }
+      hec_dss_string_copy(units, unitsLength, tss->units);
+      hec_dss_string_copy(type, typeLength, tss->type);
     }
     zstructFree(tss);
     zstructFree(transfer);
@@ -343,15 +350,9 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
         *julianBaseDate = tss->julianBaseDate;
         *timeGranularitySeconds = tss->timeGranularitySeconds;
         
-        if (tss->units != NULL) {
-          stringCopy(units, unitsLength, tss->units, strlen(tss->units));
-        }
-        if (tss->type != NULL) {
-          stringCopy(type, typeLength, tss->type, strlen(tss->type));
-        }
-        if (tss->timeZoneName != NULL) {
-          stringCopy(timeZoneName, timeZoneNameLength, tss->timeZoneName, strlen(tss->timeZoneName));
-        }
+        hec_dss_string_copy(units, unitsLength, tss->units);
+        hec_dss_string_copy(type, typeLength, tss->type);
+        hec_dss_string_copy(timeZoneName, timeZoneNameLength, tss->timeZoneName);
 
         int size = MIN(tss->numberValues, arraySize);
         size = MAX(0, size);
@@ -475,13 +476,9 @@ HECDSS_API int hec_dss_locationRetrieve(dss_file* dss, const char* fullPath,
     *horizontalUnits = loc->horizontalUnits;
     *horizontalDatum = loc->horizontalDatum;
 
-    if (loc->timeZoneName != NULL) {
-      stringCopy(timeZoneName, timeZoneNameLength, loc->timeZoneName, strlen(loc->timeZoneName));
-    }
+    hec_dss_string_copy(timeZoneName, timeZoneNameLength, loc->timeZoneName);
 
-    if (loc->supplemental != NULL) {
-      stringCopy(supplemental, supplementalLength, loc->supplemental, strlen(loc->supplemental));
-    }
+    hec_dss_string_copy(supplemental, supplementalLength, loc->supplemental);
   }
   zstructFree(loc);
   return status;
@@ -541,19 +538,11 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   *numberOrdinates = pds->numberOrdinates;
   *numberCurves = pds->numberCurves;
 
-  if (pds->unitsIndependent != NULL) {
-    stringCopy(unitsIndependent, unitsIndependentLength, pds->unitsIndependent, strlen(pds->unitsIndependent));
-  }
-  if (pds->unitsDependent != NULL) {
-    stringCopy(unitsDependent, unitsDependentLength, pds->unitsDependent, strlen(pds->unitsDependent));
-  }
-  if (pds->typeIndependent != NULL) {
-    stringCopy(typeIndependent, typeIndependentLength, pds->typeIndependent, strlen(pds->typeIndependent));
-  }
+  hec_dss_string_copy(unitsIndependent, unitsIndependentLength, pds->unitsIndependent);
+  hec_dss_string_copy(unitsDependent, unitsDependentLength, pds->unitsDependent);
+  hec_dss_string_copy(typeIndependent, typeIndependentLength, pds->typeIndependent);
 
-  if (pds->typeDependent != NULL) {
-    stringCopy(typeDependent, typeDependentLength, pds->typeDependent, strlen(pds->typeDependent));
-  }
+  hec_dss_string_copy(typeDependent, typeDependentLength, pds->typeDependent);
   if (pds->labels)
     *labelsLength = pds->labelsLength;
 
@@ -620,21 +609,11 @@ HECDSS_API int hec_dss_pdRetrieve(dss_file* dss, const char* pathname,
     // *yprecision = pds->yprecision;
 
 
-      if (pds->unitsIndependent != NULL) {
-        stringCopy(unitsIndependent, unitsIndependentLength, pds->unitsIndependent, strlen(pds->unitsIndependent));
-      }
-      if (pds->unitsDependent != NULL) {
-        stringCopy(unitsDependent, unitsDependentLength, pds->unitsDependent, strlen(pds->unitsDependent));
-      }
-      if (pds->typeIndependent != NULL) {
-        stringCopy(typeIndependent, typeIndependentLength, pds->typeIndependent, strlen(pds->typeIndependent));
-      }
-      if (pds->typeDependent != NULL) {
-        stringCopy(typeDependent, typeDependentLength, pds->typeDependent, strlen(pds->typeDependent));
-      }
-      if (pds->timeZoneName != NULL) {
-        stringCopy(timeZoneName, timeZoneNameLength, pds->timeZoneName, strlen(pds->timeZoneName));
-      }
+      hec_dss_string_copy(unitsIndependent, unitsIndependentLength, pds->unitsIndependent);
+      hec_dss_string_copy(unitsDependent, unitsDependentLength, pds->unitsDependent);
+      hec_dss_string_copy(typeIndependent, typeIndependentLength, pds->typeIndependent);
+      hec_dss_string_copy(typeDependent, typeDependentLength, pds->typeDependent);
+      hec_dss_string_copy(timeZoneName, timeZoneNameLength, pds->timeZoneName);
     if (pds->labels) {
       int size = pds->labelsLength > labelsLength ? labelsLength :pds->labelsLength;
       for (int i = 0; i < size; i++)
@@ -723,21 +702,11 @@ HECDSS_API int hec_dss_gridRetrieve(dss_file* dss, const char* pathname, int boo
     *timeZoneRawOffset = gridStruct->_timeZoneRawOffset;
     *isInterval = gridStruct->_isInterval;
     *isTimeStamped = gridStruct->_isTimeStamped;
-    if (gridStruct->_dataUnits != NULL) {
-      stringCopy(dataUnits, dataUnitsLength, gridStruct->_dataUnits, strlen(gridStruct->_dataUnits));
-    }
-    if (gridStruct->_dataSource != NULL) {
-      stringCopy(dataSource, dataSourceLength, gridStruct->_dataSource, strlen(gridStruct->_dataSource));
-    }
-    if (gridStruct->_srsName != NULL) {
-      stringCopy(srsName, srsNameLength, gridStruct->_srsName, strlen(gridStruct->_srsName));
-    }
-    if (gridStruct->_srsDefinition != NULL) {
-      stringCopy(srsDefinition, srsDefinitionLength, gridStruct->_srsDefinition, strlen(gridStruct->_srsDefinition));
-    }
-    if (gridStruct->_timeZoneID != NULL) {
-      stringCopy(timeZoneID, timeZoneIDLength, gridStruct->_timeZoneID, strlen(gridStruct->_timeZoneID));
-    }
+    hec_dss_string_copy(dataUnits, dataUnitsLength, gridStruct->_dataUnits);
+    hec_dss_string_copy(dataSource, dataSourceLength, gridStruct->_dataSource);
+    hec_dss_string_copy(srsName, srsNameLength, gridStruct->_srsName);
+    hec_dss_string_copy(srsDefinition, srsDefinitionLength, gridStruct->_srsDefinition);
+    hec_dss_string_copy(timeZoneID, timeZoneIDLength, gridStruct->_timeZoneID);
     *cellSize = gridStruct->_cellSize;
     *xCoordOfGridCellZero = gridStruct->_xCoordOfGridCellZero;
     *yCoordOfGridCellZero = gridStruct->_yCoordOfGridCellZero;
-- 
2.43.0


From 177883fa34727163799e4959950e2e7d2bee4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 080/154] fix: hec_dss_pdRetrieveInfo left the label length
 unset for paired data without labels

---
 heclib/hecdss/hecdss.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 85f5290..67e9579 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -543,8 +543,7 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   hec_dss_string_copy(typeIndependent, typeIndependentLength, pds->typeIndependent);
 
   hec_dss_string_copy(typeDependent, typeDependentLength, pds->typeDependent);
-  if (pds->labels)
-    *labelsLength = pds->labelsLength;
+  *labelsLength = pds->labels ? pds->labelsLength : 0;
 
   zstructFree(pds);
   return status;
-- 
2.43.0


From 8c1accd19f00fc2165710db4f3b780ed179befc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 081/154] fix: hec_dss_catalog leaked its catalog when the
 catalog fails

---
 heclib/hecdss/hecdss.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 67e9579..15405e8 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -211,6 +211,7 @@ HECDSS_API int hec_dss_catalog(dss_file* dss, char* pathBuffer, int* recordTypes
   int status = zcatalog(dss->ifltab,pathFilter, catStruct, UNSORTED);
   if (status < 0) {
     printf("Error during catalog.  Error code %d\n", status);
+    zstructFree(catStruct);
     return status;
   }
   int maxPaths = catStruct->numberPathnames > count ? count : catStruct->numberPathnames;
-- 
2.43.0


From 3ee63afe181d39a3c423b0b58532993f29db5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 082/154] fix: hec_dss_textStore read beyond its copy of texts
 with trailing blanks or non ASCII characters and stored what it found there

---
 heclib/hecdss/hecdss.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 15405e8..2ff2bb3 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -909,7 +909,16 @@ HECDSS_API int hec_dss_textStore(dss_file* dss, const char* pathname, const char
 
   zStructText* txt = zstructTextNew(pathname);
 
-  txt->textString = mallocAndCopy(text);
+  // mallocAndCopy would drop trailing blanks and stop at a non ASCII character,
+  // while length characters are stored
+  txt->textString = (char*)calloc(length > 0 ? (size_t)length + 1 : 1, 1);
+  if (txt->textString == NULL) {
+    zstructFree(txt);
+    return -1;
+  }
+  if (length > 0) {
+    strncpy(txt->textString, text, length);
+  }
   txt->allocated[zSTRUCT_TX_textString] = 1;
   txt->numberTextChars = length;
 
-- 
2.43.0


From 0233dcd394a222d53e2056937c03640254fc9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 083/154] fix: hec_dss_textRetrieve did not terminate the text
 when the buffer has room for it

---
 heclib/hecdss/hecdss.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 2ff2bb3..b6f4cf9 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -937,7 +937,13 @@ HECDSS_API int hec_dss_textRetrieve(dss_file* dss, const char* pathname, char* b
     if (txt->numberTextChars > bufferLength) {
       status = HEC_DSS_BUFFER_TOO_SMALL;
     }
-    strncpy(buffer, txt->textString, MIN(bufferLength, txt->numberTextChars));
+    int size = MIN(bufferLength, txt->numberTextChars);
+    if (size > 0) {
+      memcpy(buffer, txt->textString, size);
+    }
+    if (bufferLength > txt->numberTextChars) {
+      buffer[txt->numberTextChars] = '\0';
+    }
   }
 
   zstructFree(txt);
-- 
2.43.0


From fc8a27e8645d60d97a3b2dac46596a267dd58465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 084/154] fix: the hecdss array functions leaked the array
 struct and the arrays read

---
 heclib/hecdss/hecdss.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index b6f4cf9..08b5b11 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -863,6 +863,7 @@ HECDSS_API int hec_dss_arrayStore(dss_file* dss, const char* pathname,
   }
   int status = zarrayStore(dss->ifltab, array);
 
+  zstructFree(array);
   return status;
 }
 
@@ -877,6 +878,7 @@ HECDSS_API int hec_dss_arrayRetrieveInfo(dss_file* dss, const char* pathname,
     *floatValuesRead = array->numberFloatArray;
     *doubleValuesRead = array->numberDoubleArray;
   }
+  zstructFree(array);
   return status;
 }
 
@@ -901,6 +903,7 @@ HECDSS_API int hec_dss_arrayRetrieve(dss_file* dss, const char* pathname,
     }
   }
 
+  zstructFree(array);
   return status;
 }
 
-- 
2.43.0


From 957dcfa7423180d95d8e90dc13e8a990481f3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 085/154] fix: hec_dss_arrayRetrieve reported success but
 copied nothing when a buffer is not of the exact size

---
 heclib/hecdss/hecdss.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 08b5b11..a017266 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -892,15 +892,9 @@ HECDSS_API int hec_dss_arrayRetrieve(dss_file* dss, const char* pathname,
   int status = zarrayRetrieve(dss->ifltab, array);
 
   if (status == STATUS_OKAY) {
-    if (intValuesLength == array->numberIntArray) {
-      hec_dss_array_copy_int(intValues, intValuesLength, array->intArray, array->numberIntArray);
-    }
-    if (floatValuesLength == array->numberFloatArray) {
-      hec_dss_array_copy_float(floatValues, floatValuesLength, array->floatArray, array->numberFloatArray);
-    }
-    if (doubleValuesLength == array->numberDoubleArray) {
-      hec_dss_array_copy_double(doubleValues, doubleValuesLength, array->doubleArray, array->numberDoubleArray);
-    }
+    hec_dss_array_copy_int(intValues, intValuesLength, array->intArray, array->numberIntArray);
+    hec_dss_array_copy_float(floatValues, floatValuesLength, array->floatArray, array->numberFloatArray);
+    hec_dss_array_copy_double(doubleValues, doubleValuesLength, array->doubleArray, array->numberDoubleArray);
   }
 
   zstructFree(array);
-- 
2.43.0


From 9fba6d8c63dff5d72a98d8560f220ae2c1166da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 086/154] fix: hec_dss_tsRetrieve did not recognise empty dates
 as no time window, and hec_dss_tsGetSizes crashed on null dates and sized
 only the block in the D part

---
 heclib/hecdss/hecdss.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index a017266..cd159b5 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -262,18 +262,26 @@ HECDSS_API int  hec_dss_numberPeriods(const int intervalSeconds, const int julia
 
 
 
+// returns 1 if any of the dates/times is given, 0 if all are null or empty
+int hec_dss_has_time_window(const char* startDate, const char* startTime,
+  const char* endDate, const char* endTime) {
+  return (startDate != NULL && startDate[0] != '\0')
+      || (startTime != NULL && startTime[0] != '\0')
+      || (endDate != NULL && endDate[0] != '\0')
+      || (endTime != NULL && endTime[0] != '\0');
+}
+
 HECDSS_API int hec_dss_tsGetSizes(dss_file* dss, const char* pathname,
     const char* startDate, const char* startTime,
     const char* endDate, const char* endTime,
     int* numberValues, int* qualityElementSize) {
   
     zStructRecordSize* recordSize = zstructRecordSizeNew(pathname);
-    zStructTimeSeries* tss = zstructTsNew(pathname);
-
-    tss->startJulianDate = dateToJulian(startDate);
-    tss->startTimeSeconds = timeStringToSeconds(startTime);
-    tss->endJulianDate = dateToJulian(endDate);
-    tss->endTimeSeconds = timeStringToSeconds(endTime);
+    zStructTimeSeries* tss = zstructTsNewTimes(pathname, startDate, startTime, endDate, endTime);
+    // as in hec_dss_tsRetrieve, no dates/times means all data
+    if (!hec_dss_has_time_window(startDate, startTime, endDate, endTime) && !isTsPattern(pathname)) {
+      tss->boolRetrieveAllTimes = 1;
+    }
 
     ztsProcessTimes(dss->ifltab, tss, 0);
     int status = ztsGetSizes(dss->ifltab, tss, recordSize);
@@ -328,13 +336,7 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
     zStructTimeSeries* tss = zstructTsNewTimes(pathname, startDate, startTime, endDate, endTime);
     tss->boolPattern = isTsPattern(pathname);
     // if no dates/times are given retrieve all data.
-    if (  
-         (startDate == NULL || startDate == "\0")
-      && (startTime == NULL || startTime == "\0")
-      && (endDate == NULL   || endDate == "\0")
-      && (endTime == NULL   || endTime == "\0")
-      && ! tss->boolPattern
-         ) 
+    if (!hec_dss_has_time_window(startDate, startTime, endDate, endTime) && !tss->boolPattern)
     {
       if (!isDpartEmpty(pathname)) {
         hec_dss_log_message("The D-part of the path will be ignored.");
-- 
2.43.0


From f5628da23067a3d2eb1fa2a52aa889b5be6929df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 087/154] fix: hec_dss_tsGetSizes gave too small a size when
 records are missing in the window of a regular series

---
 heclib/hecdss/hecdss.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index cd159b5..e7159c6 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -287,6 +287,11 @@ HECDSS_API int hec_dss_tsGetSizes(dss_file* dss, const char* pathname,
     int status = ztsGetSizes(dss->ifltab, tss, recordSize);
     if (status == 0) {
       *numberValues = recordSize->logicalNumberValues;
+      // missing records in the window of a regular series are retrieved as missing values
+      if (tss->timeWindow && tss->timeWindow->intervalSeconds > 0 &&
+          tss->timeWindow->numberValues > *numberValues) {
+        *numberValues = tss->timeWindow->numberValues;
+      }
       *qualityElementSize = recordSize->tsQualityElementSize;
     }
     
-- 
2.43.0


From 97a1460ea0662af9d1014de5276d74d904e483a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 088/154] fix: storing a time series pattern left the file
 locked

---
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c | 2 +-
 heclib/heclib_c/src/Internal/ztsStoreReg7.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 9bc34c4..4b5fd8c 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -317,7 +317,7 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								tss->numberValues, tss->numberValues,
 								dataType);
 		//status = ztsStorePattern(ifltab, tss);
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return status;
 	}
 
diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index eec3687..69ce012 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -234,7 +234,7 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								tss->numberValues, tss->numberValues,
 								dataType);
 		//status = ztsStorePattern(ifltab, tss);
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return status;
 	}
 
-- 
2.43.0


From d020191b6552055bfeab468a283401c775848b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 089/154] fix: hec_dss_tsGetSizes never returned for a record
 that is not a time series

---
 heclib/hecdss/hecdss.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index e7159c6..f0cd570 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -283,8 +283,10 @@ HECDSS_API int hec_dss_tsGetSizes(dss_file* dss, const char* pathname,
       tss->boolRetrieveAllTimes = 1;
     }
 
-    ztsProcessTimes(dss->ifltab, tss, 0);
-    int status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    int status = ztsProcessTimes(dss->ifltab, tss, 0);
+    if (status >= 0) {
+      status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    }
     if (status == 0) {
       *numberValues = recordSize->logicalNumberValues;
       // missing records in the window of a regular series are retrieved as missing values
-- 
2.43.0


From 352305aa4bee3086f0666f8c9e9002e95fbc154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 090/154] fix: the first and last date of yearly series whose
 record block starts with a leap year were a day early

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 9be39f1..f4855ee 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -205,6 +205,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 {	
 	int firstValid;
 	int lastValid;
+	int julianFirstPeriod;
+	int secondsFirstPeriod;
 	int julianFirstValue;
 	int julianLastValue;
 	int secondsFirstValue;
@@ -837,10 +839,14 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 											cnotesToStore, cnotesToStoreLen,
 											&firstValid, &lastValid);
 		///////////////////  FIX ME - use time offset!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
-		incrementTime(intervalSeconds, firstValid, julianBlockDate, intervalSeconds,
+		//  The end of the first period in the block (months and years vary in length)
+		julianFirstPeriod = julianBlockDate;
+		secondsFirstPeriod = intervalSeconds;
+		ztsOffsetAdjustToStandard(intervalSeconds, &julianFirstPeriod, &secondsFirstPeriod);
+		incrementTime(intervalSeconds, firstValid, julianFirstPeriod, secondsFirstPeriod,
 						&julianFirstValue, &secondsFirstValue);
 		//  And the date/time of the last value we're storing	
-		incrementTime(intervalSeconds, lastValid, julianBlockDate, intervalSeconds,
+		incrementTime(intervalSeconds, lastValid, julianFirstPeriod, secondsFirstPeriod,
 						&julianLastValue, &secondsLastValue);
 		
 		blockStartPosition = 0;
-- 
2.43.0


From fdb3a19df7f8d38a9a761b72ba5585262cb271f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:03 +0000
Subject: [PATCH 091/154] fix: the catalogue left out records when an
 interrupted write had left the file's record count too low

---
 .../heclib_c/src/Internal/zcatalogInternal.c  | 54 +++++++++++++------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 69d189d..a83fa48 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -2,6 +2,7 @@
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 #include "zdssKeys.h"
 #include "zdssVals.h"
@@ -11,6 +12,36 @@
 #include "zerrorCodes.h"
 
 
+static int growArray(void **array, size_t numberHave, size_t numberWanted, size_t elementSize)
+{
+	char *larger;
+
+	larger = (char *)realloc(*array, numberWanted * elementSize);
+	if (!larger) return 0;
+	memset(larger + (numberHave * elementSize), 0, (numberWanted - numberHave) * elementSize);
+	*array = larger;
+	return 1;
+}
+
+//  Makes the lists of the catalog struct large enough for at least numberNeeded pathnames
+static int growCatalogLists(zStructCatalog *catStruct, int numberNeeded)
+{
+	size_t have = (size_t)catStruct->listSize;
+	size_t want = (size_t)numberNeeded + have / 2 + 16;
+
+	if (!growArray((void **)&catStruct->pathnameList, have, want, sizeof(char *))) return 0;
+	if (!growArray((void **)&catStruct->sortAddresses, have, want, sizeof(long long))) return 0;
+	if (!growArray((void **)&catStruct->recordType, have, want, sizeof(int))) return 0;
+	if (!growArray((void **)&catStruct->pathnameHash, have, want, sizeof(long long))) return 0;
+	if (!growArray((void **)&catStruct->lastWriteTimeRecord, have, want, sizeof(long long))) return 0;
+	if (catStruct->startDates && catStruct->endDates) {
+		if (!growArray((void **)&catStruct->startDates, have, want, sizeof(int))) return 0;
+		if (!growArray((void **)&catStruct->endDates, have, want, sizeof(int))) return 0;
+	}
+	catStruct->listSize = (int)want;
+	return 1;
+}
+
 /**
 *  Function:	zcatalogInternal
 *
@@ -363,21 +394,20 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 						if (zmessageLevel(ifltab, MESS_METHOD_CATALOG_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 							zmessageDebug(ifltab, DSS_FUNCTION_zcatalog_ID, "Pathname passes requests ", "");
 						}
-						if (catStruct) {
-							if ((catStruct->listSize > 0) && (countTotal >= catStruct->listSize)) {
-								//  Not enough space!
-								//  This is okay, as someone might be writing new pathnames while we are cataloging....
-								/*status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-												zdssErrorCodes.ARRAY_SPACE_EXHAUSTED, catStruct->listSize, (long long)countTotal,
-												zdssErrorSeverity.MEMORY_ERROR, "", "Catalog array length");  */
-								break;
+						if (catStruct && (countTotal >= catStruct->listSize)) {
+							//  More pathnames than the file header counts.  Someone might be writing
+							//  while we are cataloging, or a write may have been interrupted
+							if (!growCatalogLists(catStruct, countTotal + 1)) {
+								return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStruct->listSize, 0,
+												zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for catalog lists");
 							}
 						}
 						//  If the number of characters in the pathname is not a multiple
 						//  of 8, then it is guaranteed to be zero terminated
 						//  If a multiple of 8, it will not be zero terminated
 						//  len = pathnameSize * 8;
-						if (catStruct && (catStruct->listSize > 0)) {
+						if (catStruct) {
 							pathnameMalloc = stringFortToC(pathname,  (size_t)numberChars);
 							if (pathnameMalloc == NULL) {
 								//  Memory error
@@ -429,12 +459,6 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 						if (status < 0) {
 							break;
 						}
-						if (catStruct) {
-							if (countTotal > catStruct->listSize) {
-								countTotal--;
-								break;
-							}
-						}
 					}
 					if (status < 0)
 						break;
-- 
2.43.0


From 702e3cda6cfe48d7d9f619be603fb489985d3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 092/154] fix: an alias of a record that an interrupted write
 left incomplete could give another record's path

---
 heclib/heclib_c/src/Public/zaliasGetPrimary.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zaliasGetPrimary.c b/heclib/heclib_c/src/Public/zaliasGetPrimary.c
index f296833..1fd75d7 100644
--- a/heclib/heclib_c/src/Public/zaliasGetPrimary.c
+++ b/heclib/heclib_c/src/Public/zaliasGetPrimary.c
@@ -56,6 +56,7 @@ int zaliasGetPrimary(long long *ifltab, const char* aliasPathname, char* primayP
 	long long *pathnameBin;
 	long long address;
 	long long infoAddress;
+	long long aliasBinAddress;
 	int count;
 	int istat = 0;
 	int status;
@@ -91,6 +92,7 @@ int zaliasGetPrimary(long long *ifltab, const char* aliasPathname, char* primayP
 
 	//  Need to walk chain to primary
 	address = ifltab[zdssKeys.kaddInfoLastPath];
+	aliasBinAddress = ifltab[zdssKeys.kpathBinAddress];
 	info = (long long *)ifltab[zdssKeys.kinfo];
 	pathnameBin = (long long *)ifltab[zdssKeys.kpathBin];
 	count = 0;
@@ -133,6 +135,23 @@ int zaliasGetPrimary(long long *ifltab, const char* aliasPathname, char* primayP
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
 		}
 
+		//  Be sure that the record here has this alias.  If the file was not completely
+		//  updated, another record might be at this address
+		address = info[zdssInfoKeys.kinfoAliasesBinAddress];
+		while (address != aliasBinAddress) {
+			pathnameBin[zdssBinKeys.kbinStatus] = 0;
+			status = (address > 0) ? zget(ifltab, address, (int *)pathnameBin, 4, 2) : STATUS_OKAY;
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
+			}
+			if (pathnameBin[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID,
+									zdssErrorCodes.RECORD_DOES_NOT_EXIST, 0,
+									0, zdssErrorSeverity.WARNING, aliasPathname, "");
+			}
+			address = pathnameBin[zdssBinKeys.kbinInfoAdd];
+		}
+
 		if ((int)maxLenPrimayPathname < (npath+1)) npath = (int)maxLenPrimayPathname - 1;  //  leave room for '\0'
 		charInt((void *)&info[zdssInfoKeys.kinfoPathname], (void *)primayPathname, npath, (int)maxLenPrimayPathname, 0, 0, 0);
 		primayPathname[npath] = '\0';
-- 
2.43.0


From abd33279c2a39f8a4b7ef85262acf5ef3702a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 093/154] fix: after a record was read with a warning its data
 were read from the addresses of the record accessed before

---
 heclib/heclib_c/src/Internal/zreadInternal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index 8964f36..6ed4d88 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -260,6 +260,10 @@ int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 			}
 			return status;
 		}
+		if (status != STATUS_RECORD_FOUND) {
+			//  A warning (e.g., an alias without its primary); the info area is for another record
+			return status;
+		}
 		ztransfer->info = (long long *)ifltab[zdssKeys.kinfo];
 		if (zmessageLevel(ifltab, MESS_METHOD_READ_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zreadInternal_ID, "Record loaded (info block read)","");
-- 
2.43.0


From 54283865bb2b88a95e00f609646849979ef12888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 094/154] fix: space already used by an interrupted write was
 given out again, so that later records over-wrote it

---
 heclib/heclib_c/src/Internal/zpermRead.c | 9 +++++++++
 heclib/heclib_c/src/System/zfileSize.c   | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpermRead.c b/heclib/heclib_c/src/Internal/zpermRead.c
index 466acdd..d21390b 100644
--- a/heclib/heclib_c/src/Internal/zpermRead.c
+++ b/heclib/heclib_c/src/Internal/zpermRead.c
@@ -42,6 +42,7 @@ int zpermRead (long long *ifltab)
 	long long *fileHeader;
 	long long *pathnameBin;
 	long long iaddress = 0;
+	long long nbytes;
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_PERM_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
@@ -114,6 +115,14 @@ int zpermRead (long long *ifltab)
 		 }
 	}
 
+	//  If a write was interrupted before the file header was updated, there may be
+	//  data past the recorded end of the file.  Don't write new records over that.
+	//  (The end of file flag is one word after the end)
+	nbytes = zfileSize((int)ifltab[zdssKeys.khandle]);
+	if (nbytes > (fileHeader[zdssFileKeys.kfileSize] + 1) * 8) {
+		fileHeader[zdssFileKeys.kfileSize] = (nbytes + 7) / 8;
+	}
+
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/System/zfileSize.c b/heclib/heclib_c/src/System/zfileSize.c
index 58db17a..2058d42 100644
--- a/heclib/heclib_c/src/System/zfileSize.c
+++ b/heclib/heclib_c/src/System/zfileSize.c
@@ -15,19 +15,19 @@ long long zfileSize(int handle)
 #ifdef _MSC_VER
 	struct _stat64 buf;
 	status = _fstat64(handle, &buf);
-	if (!status) return status;
+	if (status) return -1;
 	nbytes = buf.st_size; 
 	return nbytes;
 #elif __linux__  || __APPLE__
     struct stat buf;
 	status = fstat(handle, &buf);
-	if (!status) return status;
+	if (status) return -1;
 	nbytes = buf.st_size; 
 	return nbytes;
 #else
 	struct stat64 buf;
 	status = fstat64(handle, &buf);
-	if (!status) return status;
+	if (status) return -1;
 	nbytes = buf.st_size;
 	return nbytes;
 #endif
-- 
2.43.0


From f7e67c57c6a866424f80dee5c93d4a535f4ae968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 095/154] fix: an interrupted write of a new pathname bin could
 leave a bin shared by two hash codes or lose a bin block

---
 heclib/heclib_c/src/Internal/zbinNew.c | 105 ++++++++++++-------------
 1 file changed, 52 insertions(+), 53 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index 3851e8e..f7ec103 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -47,6 +47,7 @@ int zbinNew(long long *ifltab)
 
 	long long *pathnameBin;
 	long long izero = 0;
+	long long lWord;
 	long long address;
 	long long newBinAddress;
 	long long *fileHeader;
@@ -67,72 +68,70 @@ int zbinNew(long long *ifltab)
 	// Record that we have created a new bin
 	fileHeader[zdssFileKeys.ktotalBins]++;
 
-	newBinAddress = 0;
 	isize = (int)fileHeader[zdssFileKeys.kbinSize];
-	//  Is there a pathname bin for this table hash?
-	//  (The table hash will have already been loaded by zcheck)
-	if (ifltab[zdssKeys.khashTableBinAdd] != 0) {
-		//  Yes, read it.
-		status = zget(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)pathnameBin, isize, 2);
+	//  Find the next empty bin
+	//  (A "block" will contain many (e.g., 32) pathname bins together)
+	newBinAddress = 0;
+	while (newBinAddress == 0) {
+		address = fileHeader[zdssFileKeys.kaddNextEmptyBin];
+		status = zget(ifltab, address, (int *)&lWord, 1, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		//  Are there any more unused (empty) pathname bins in this block?
-		//  (A "block" will contain many (e.g., 32) pathname bins together)
-		if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-			//  No more space in this block, create a new block at the end of the file
-			//  Compute space needed -
-			//  One extra word at the end of the bin block to point to the next block
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-			pathnameBin[isize-1] = newBinAddress;
+		if (fileHeader[zdssFileKeys.kbinsRemainInBlock] > 0) {
+			//  There is an unused bin in this block; use it, unless an earlier write used it,
+			//  but was interrupted before the file header was updated
+			if (lWord == 0) {
+				newBinAddress = address;
+			}
+			fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
+			//  When we've reached the end of the bin block, this will be used to point to next bin block
+			fileHeader[zdssFileKeys.kaddNextEmptyBin] += isize;
 		}
 		else {
-			//  Yes, there is a unused bin in this block
-			pathnameBin[isize-1] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
+			//  No empty bins remain in this block; the last word points to the next block
+			if (lWord <= address) {
+				//  There is no next block; write a new pathname block at the end of the file
+				//  One extra word at the end of the bin block to point to the next block
+				if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
+					zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
+				}
+				blockSize = (isize * (int)fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
+				lWord = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
+				status = zput(ifltab, lWord, (int *)&izero, -blockSize, 2);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+				}
+				//  Write the EOF flag
+				if (atEOF) {
+					status = zwriteEOF(ifltab);
+					if (zisError(status)) {
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+					}
+				}
+				//  Now that the block is there, set its address in the last block
+				status = zput(ifltab, address, (int *)&lWord, 1, 2);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+				}
+			}
+			fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock];
+			fileHeader[zdssFileKeys.kaddNextEmptyBin] = lWord;
 		}
+	}
+
+	//  Is there a pathname bin for this table hash?
+	//  (The table hash will have already been loaded by zcheck)
+	if (ifltab[zdssKeys.khashTableBinAdd] != 0) {
 		//  Save the address of this new bin in the current (full) bin (for this hash)
 		address = ifltab[zdssKeys.kbinAddCurrent] + isize - 1;
-		status = zput(ifltab, address, (int *)&pathnameBin[isize-1], 1, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
-		}
-	}
-	//  No empty bins remain in this block; create new block at EOF
-	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-		//  Write a new pathname block at the end of the file
-		//  First, set the address of this in the last block
-		if (newBinAddress == 0) {
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-		}
-		status = zput(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&newBinAddress, 1, 2);
+		status = zput(ifltab, address, (int *)&newBinAddress, 1, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		//  Set location of current block at end of file
-		fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock] - 1;
-		ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
-		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
-		}
-		status = zput(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)&izero, -blockSize, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
-		}
-		fileHeader[zdssFileKeys.kaddNextEmptyBin] = ifltab[zdssKeys.kbinAddCurrent] + fileHeader[zdssFileKeys.kbinSize];
-		//  Write the EOF flag
-		if (atEOF) {
-			status = zwriteEOF(ifltab);;
-		}
-	}
-	else {
-		//  There are still some empty bins in this block; use one
-		fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
-		ifltab[zdssKeys.kbinAddCurrent] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
-		//  When we've reached the end of the bin block, this will be used to point to next bin block
-		fileHeader[zdssFileKeys.kaddNextEmptyBin] += fileHeader[zdssFileKeys.kbinSize];
 	}
+	ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
+
 	//  Be sure the new bin is clear
 	for (i=0; i<(int)fileHeader[zdssFileKeys.kbinSize]; i++) {
 		pathnameBin[i] = 0;
-- 
2.43.0


From 67b8b37bbfe8ebc4049c158e6b91a86376e7a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 096/154] fix: unlocking reported success when the file header
 could not be written

---
 heclib/heclib_c/src/Internal/zlockActive.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index d183c3a..4dfa065 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -140,6 +140,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	int j;
 	int count;
 	int status;
+	int statusWrite;
 	int numberAttempts;
 #ifdef _MSC_VER
 	DWORD sleepTime;
@@ -154,6 +155,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	handle = (int)ifltab[zdssKeys.khandle];
 	status = STATUS_OKAY;
+	statusWrite = STATUS_OKAY;
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
@@ -396,7 +398,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			if (ifltab[zdssKeys.kmultiUserAccess] == RELEASE_ACCESS) {
 				//  Release exclusive access
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
+					statusWrite = zpermWrite(ifltab);
 					zflushToDisk(ifltab, 1);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
@@ -411,7 +413,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			//  If we are in an exclusive write lock mode, don't unlock file
 			if (ifltab[zdssKeys.klocked] == 1)  {
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
+					statusWrite = zpermWrite(ifltab);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
 				if (ifltab[zdssKeys.kmultiUserAccess] != EXCLUSIVE_ACCESS) {
@@ -455,13 +457,17 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 		}
 		else {
 			if (flush && ifltab[zdssKeys.kwritingNow]) {
-				zpermWrite(ifltab);
+				statusWrite = zpermWrite(ifltab);
 				ifltab[zdssKeys.kwritingNow] = 0;
 			}
 			ifltab[zdssKeys.klocked] = 0;
 		}
 	}
 
+	//  The file is unlocked even if its header could not be written
+	if (zisError(statusWrite)) {
+		status = statusWrite;
+	}
 
 
 
-- 
2.43.0


From bb0366a01066be9d6fed83998dea5215452c496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 097/154] fix: operations reported success when the file header
 could not be written at their end

---
 .../src/Internal/zcopyRecordInternal.c        | 20 +++++++++++++++----
 .../heclib_c/src/Internal/zdeleteInternal.c   |  2 +-
 heclib/heclib_c/src/Internal/zlockActive.c    | 14 +++++++++++++
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c |  5 ++++-
 heclib/heclib_c/src/Internal/ztsStoreReg7.c   |  5 ++++-
 heclib/heclib_c/src/Public/zaliasAdd.c        |  5 ++++-
 heclib/heclib_c/src/Public/zaliasRemove.c     |  3 +--
 heclib/heclib_c/src/Public/zaliasRemoveAll.c  |  3 +--
 heclib/heclib_c/src/Public/zpdStore.c         |  4 ++--
 heclib/heclib_c/src/Public/zrename.c          |  2 +-
 heclib/heclib_c/src/headers/hecdssInternal.h  |  1 +
 11 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 375f2e9..2f85cdf 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -323,10 +323,16 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		//  (If we are in super lock, the mid lock will not write the perm section)
 		if (ifltabTo[zdssKeys.klockLevel] > LOCKING_LEVEL_MID) {
 			if (ifltabTo[zdssKeys.kwritingNow] != 0) {
-				zpermWrite(ifltabTo);
+				status = zpermWrite(ifltabTo);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+				}
 			}
 		}
-		zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockRelease(ifltabTo, LOCKING_LEVEL_MID, STATUS_OKAY);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 	}
 	else {
 		status = zput(ifltabFrom, ifltabFrom[zdssKeys.kaddInfoLastPath], (int *)infoTo, numberInfo, 2);
@@ -352,10 +358,16 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		//  (If we are in super lock, the mid lock will not write the perm section)
 		if (ifltabFrom[zdssKeys.klockLevel] > LOCKING_LEVEL_MID) {
 			if (ifltabFrom[zdssKeys.kwritingNow] != 0) {
-				zpermWrite(ifltabFrom);
+				status = zpermWrite(ifltabFrom);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
+				}
 			}
 		}
-		zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockRelease(ifltabFrom, LOCKING_LEVEL_MID, STATUS_OKAY);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 	}
 
 	if (zmessageLevel(ifltabFrom, MESS_METHOD_COPY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index f8ac167..165a82d 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -281,7 +281,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	ifltab[zdssKeys.kwritingNow] = 1;
 
 	//  Unlock
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_MID, status);
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		zmessageDebug(ifltab, functionID, "Exit.  Pathname: ",pathname);
 		zmessageDebugInt(ifltab, functionID, "Handle: ", zhandle(ifltab));
diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index 4dfa065..3572ac0 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -487,3 +487,17 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	return status;
 }
 
+
+//  Write the file header and unlock the file at the end of an operation.
+//  Returns the status of the operation, or the error, if the operation was
+//  okay, but the header could not be written
+int zlockRelease(long long *ifltab, int level, int status)
+{
+	int statusUnlock;
+
+	statusUnlock = zlockActive(ifltab, level, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (zisError(statusUnlock) && !zisError(status)) {
+		return statusUnlock;
+	}
+	return status;
+}
diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 4b5fd8c..e91f0a2 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -559,7 +559,10 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 	}
 	//-----------------------------------------------------
 
-	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_HIGH, STATUS_OKAY);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);
+	}
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebug(ifltab, DSS_FUNCTION_ztsStoreIrreg_ID, "Exit, Pathname: ", tss->pathname);
diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index 69ce012..6b395c1 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -358,7 +358,10 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 	}
 	//-----------------------------------------------------
 
-	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_HIGH, STATUS_OKAY);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreReg_ID);
+	}
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
diff --git a/heclib/heclib_c/src/Public/zaliasAdd.c b/heclib/heclib_c/src/Public/zaliasAdd.c
index 8ee9bc3..a3c1292 100644
--- a/heclib/heclib_c/src/Public/zaliasAdd.c
+++ b/heclib/heclib_c/src/Public/zaliasAdd.c
@@ -220,7 +220,10 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 		zmessage2(ifltab, "                       Alias Pathname: ",aliasPathname);
 	}
 
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_MID, status);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasAdd_ID);
+	}
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index e7bc88c..54695f5 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -274,8 +274,7 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 	fileHeader[zdssFileKeys.kdead] += zdssBinKeys.kbinSize + numberLongsInBytes((int)strlen(aliasPathname));
 
-	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_MID, zpermWrite(ifltab));
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index dc7922c..2659ca1 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -180,8 +180,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader[zdssFileKeys.knumberAliasDeletes] += numberAliases;
 	fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 
-	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_MID, zpermWrite(ifltab));
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 80369e6..d33f268 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -1169,8 +1169,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				clabels = 0;
 			}
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
-			if (zisError(status)) {
+		status = zlockRelease(ifltab, LOCKING_LEVEL_HIGH, status);
+		if (zisError(status)) {
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 		}
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 2b87b26..c3b813f 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -441,7 +441,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	if (infoOld) free(infoOld);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockRelease(ifltab, LOCKING_LEVEL_MID, status);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Exit, status: ", status);
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 85fce1f..0f14d61 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -100,6 +100,7 @@ void zpidUpdate(long long *ifltab);
 int getVersFromChar(char version);
 int zinitIfltab(long long *ifltab);
 int zlockActive(long long *ifltab, int level, int lock, int flush);
+int zlockRelease(long long *ifltab, int level, int status);
 int zlockPassive(long long *ifltab, int lockFlag, int accessMode);
 int zlockDss (long long *ifltab, int ihandle, int mode, long long wordAddress, int nbytes);
 int zopenInternal(long long *ifltab, const char *dssFilename,
-- 
2.43.0


From 3c02e4618b63111de86ceb55d54563f46ddb42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 098/154] fix: a store that failed part way through left the
 file locked and its header out of date

---
 heclib/heclib_c/src/Internal/zwriteInternal.c | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 04f48e3..dc3da3e 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -154,6 +154,13 @@
 *
 **/
 
+//  A write failed part way through:  Be sure that the file header accounts for the space
+//  that is already used by the record and unlock the file, so that it can still be used
+static int unlockAfterError(long long *ifltab, int status)
+{
+	zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+}
 
 int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 				   long long bufferControl[4], int *buffer, int boolUseBuffer)
@@ -352,8 +359,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 
 	if (zisError(status)) {
 		//  Error code generated in the lower functions
-		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		return unlockAfterError(ifltab, status);
 	}
 
 	info = (long long *)ifltab[zdssKeys.kinfo];
@@ -370,7 +376,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}		
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], ztransfer->internalHeader,
 			ztransfer->internalHeaderNumber, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) return unlockAfterError(ifltab, status);
 	}
 
 	if ((ztransfer->header2Number > 0) && ztransfer->header2) {
@@ -379,7 +385,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoHeader2Address], ztransfer->header2,
 			ztransfer->header2Number, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) return unlockAfterError(ifltab, status);
 	}
 
 	if ((ztransfer->userHeaderNumber > 0) && ztransfer->userHeader) {
@@ -388,7 +394,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
 			ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) return unlockAfterError(ifltab, status);
 	}
 
 	//  Write data values
@@ -408,7 +414,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues1Address], ztransfer->values1,
 				ztransfer->values1Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) return unlockAfterError(ifltab, status);
 	}
 
 	if ((ztransfer->values2Number > 0) && ztransfer->values2) {
@@ -427,7 +433,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues2Address], ztransfer->values2,
 				ztransfer->values2Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) return unlockAfterError(ifltab, status);
 	}
 
 	if ((ztransfer->values3Number > 0) && ztransfer->values3) {
@@ -446,7 +452,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues3Address], ztransfer->values3,
 				ztransfer->values3Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) return unlockAfterError(ifltab, status);
 	}
 
 	//  If more space is allocated than written, don't bother writing this area
@@ -463,7 +469,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 	}
 	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		return unlockAfterError(ifltab, status);
 	}
 
 	//  Write perm area (if multi-user) and unlock
-- 
2.43.0


From 129f80c125d7a4e8b6285a2f5a7f1fd3c8c34af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 099/154] fix: after a failed write of a new pathname bin the
 catalogue left out all records stored later

---
 heclib/heclib_c/src/Internal/zbinUpdate.c       | 5 ++++-
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 8 +++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..d747cd3 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -239,7 +239,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 							ifltab[zdssKeys.kbinAddCurrent], icount);
 						zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin full for address: ", messageString);
 					}
-					zbinNew(ifltab);
+					status = zbinNew(ifltab);
+				if (zisError(status)) {
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+				}
 					fileHeader[zdssFileKeys.kbinsOverflow]++;
 					icount = 0;
 				}
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index a83fa48..5faf62b 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -305,14 +305,12 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 				zmessageDebug(ifltab, DSS_FUNCTION_zcatalog_ID, "Read bin at address: ", cbuff);
 			}
 
+			//  A bin can be empty and still have used bins after it,
+			//  if the write of its first pathname failed
 			icount = 0;
-			if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
-				//  No more, didn't find it in this block, continue on
-					break;
-			}
 			while (1) {
 				if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
-					//  No more, didn't find it in this block, continue on
+					//  No more in this bin, continue on
 					break;
 				}
 				i8toi4(pathnameBin[icount+zdssBinKeys.kbinPathLen], &numberChars, &pathnameSize);
-- 
2.43.0


From be7ddb1968433f86925b313466f5e54dd19a22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 100/154] fix: zrename went on when the new pathname could not
 be written to its bin

---
 heclib/heclib_c/src/Public/zrename.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index c3b813f..9f0a49d 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -380,7 +380,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	//  Update the pathname bin area
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
 	ifltab[zdssKeys.kbinLastWrite] = info[zdssInfoKeys.kinfoLastWriteTime];
-	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	status = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	if (zisError(status)) {
+		if (infoOld) free(infoOld);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
 
 	//  Any aliases have to point to the new location (after the bin update, as they may be in the same bin)
 	if (wroteAtEOF) {
-- 
2.43.0


From e2745e735904695d7891933504bd78d721e4b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 101/154] fix: failed writes of the table of reclaimed space
 were ignored, and space was used that was still listed as free

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c   | 8 +++++---
 heclib/heclib_c/src/Internal/zgetFileSpace.c     | 7 ++++++-
 heclib/heclib_c/src/Internal/zreleaseFileSpace.c | 7 +++++--
 heclib/heclib_c/src/Internal/zwriteExisting.c    | 8 +++++++-
 heclib/heclib_c/src/Internal/zwriteNew.c         | 3 +++
 heclib/heclib_c/src/headers/hecdss7.h            | 2 +-
 6 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 165a82d..1ed82e7 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -217,12 +217,14 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]) +
 					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues3Number]);
 				if (endAddress1 == endAddress2) {
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					status = zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
 				}
 				else {
 					//  Release the info block and the data separately
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], numberInfo);
-					zreleaseFileSpace(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], releasedAmount - numberInfo);
+					status = zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], numberInfo);
+					if (!zisError(status)) {
+						status = zreleaseFileSpace(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], releasedAmount - numberInfo);
+					}
 				}
 			}
 			//  Decrement counters
diff --git a/heclib/heclib_c/src/Internal/zgetFileSpace.c b/heclib/heclib_c/src/Internal/zgetFileSpace.c
index b5fdef2..d54aa15 100644
--- a/heclib/heclib_c/src/Internal/zgetFileSpace.c
+++ b/heclib/heclib_c/src/Internal/zgetFileSpace.c
@@ -56,6 +56,7 @@ long long zgetFileSpace(long long *ifltab, int sizeNeeded, int boolReclaimedOK,
 	long long *reclaimArray;
 	long long *fileHeader;
 	int iarrayNumber;
+	int istat;
 	int sizeHave;
 	int i;
 	int loc;
@@ -111,7 +112,11 @@ long long zgetFileSpace(long long *ifltab, int sizeNeeded, int boolReclaimedOK,
 				if (fileHeader[zdssFileKeys.kreclaimTotal] < 0) fileHeader[zdssFileKeys.kreclaimTotal] = 0;
 				fileHeader[zdssFileKeys.kreclaimedSpace]++;
 				//  save reclaim Array
-				zreclaimWrite(ifltab);
+				istat = zreclaimWrite(ifltab);
+				if (istat != 0) {
+					//  The space is still listed as available, it cannot be used
+					return (long long)zerrorUpdate(ifltab, istat, 0);
+				}
 				break;
 			}
 			else {
diff --git a/heclib/heclib_c/src/Internal/zreleaseFileSpace.c b/heclib/heclib_c/src/Internal/zreleaseFileSpace.c
index f3d76bd..ca19e07 100644
--- a/heclib/heclib_c/src/Internal/zreleaseFileSpace.c
+++ b/heclib/heclib_c/src/Internal/zreleaseFileSpace.c
@@ -23,7 +23,7 @@
 //  It also updates the max space available and removes the smallest
 //  space, if the table becomes full.
 
-void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
+int zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
 {
 	long long *reclaimArray;
 	int minMem;
@@ -32,6 +32,7 @@ void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
 	int loc;
 	int ipos;
 	int boolArrayUpdated;
+	int status;
 	long long *fileHeader;
 
 
@@ -43,6 +44,7 @@ void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
 	}
 
 	boolArrayUpdated = 0;
+	status = STATUS_OKAY;
 	iarrayNumber = 0;
 	if (amountLongs >= fileHeader[zdssFileKeys.kreclaimMin]) {
 		while ((reclaimArray = zreclaimRead(ifltab, &iarrayNumber, 1)) > 0) {		
@@ -83,7 +85,7 @@ void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
 		
 		//  save reclaim Array
 		if (boolArrayUpdated) {
-			zreclaimWrite(ifltab);
+			status = zreclaimWrite(ifltab);
 			if (amountLongs > fileHeader[zdssFileKeys.kreclaimMaxAvailable]) {
 				fileHeader[zdssFileKeys.kreclaimMaxAvailable] = amountLongs;
 			}
@@ -92,4 +94,5 @@ void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
 
 	fileHeader[zdssFileKeys.kdead] += amountLongs;
 
+	return status;
 }
diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index f45e59a..3670357 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -290,7 +290,10 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize / 2 + numberInfo)) ==
 			(info[zdssInfoKeys.kinfoValues1Address] +
 				numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize / 2 + numberInfo));
+			status = zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize / 2 + numberInfo));
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
+			}
 		}
 		else {
 			//  this would have been done in release space
@@ -378,6 +381,9 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			numberLongsInInts(ztransfer->totalAllocatedSize);
 		//  We can use reclaimed space - even if it includes this same record
 		address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
+		if (address < 0) {
+			return zerrorUpdate(ifltab, (int)address, DSS_FUNCTION_zwriteExisting_ID);
+		}
 		//  Any aliases have to point to the new location
 		status = zaliasInfoMoved(ifltab, info, ifltab[zdssKeys.kaddInfoLastPath], address);
 		if (zisError(status)) {
diff --git a/heclib/heclib_c/src/Internal/zwriteNew.c b/heclib/heclib_c/src/Internal/zwriteNew.c
index 26c83be..8aa5ff6 100644
--- a/heclib/heclib_c/src/Internal/zwriteNew.c
+++ b/heclib/heclib_c/src/Internal/zwriteNew.c
@@ -238,6 +238,9 @@ int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 		zmessageDebug(ifltab, DSS_FUNCTION_zwriteNew_ID, "Info block size: ", messageString);
 	}
 	address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
+	if (address < 0) {
+		return zerrorUpdate(ifltab, (int)address, DSS_FUNCTION_zwriteNew_ID);
+	}
 
 	//  Save the location of info in the pathname bin
 	status = zbinUpdate(ifltab, ztransfer->pathname, address, 1, ztransfer->dataType);
diff --git a/heclib/heclib_c/src/headers/hecdss7.h b/heclib/heclib_c/src/headers/hecdss7.h
index 7207c62..f880c25 100644
--- a/heclib/heclib_c/src/headers/hecdss7.h
+++ b/heclib/heclib_c/src/headers/hecdss7.h
@@ -232,7 +232,7 @@ void zerrorSpecifics(int optionalErrorCode, int *severity, int *errorType, int *
 
 
 
-void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs);
+int zreleaseFileSpace(long long *ifltab, long long address, int amountLongs);
 int zcheck(long long *ifltab, const char* pathname);
 
 
-- 
2.43.0


From a6e436baa5a433f35089e7a45df3c958da21e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 102/154] fix: deleting a record with aliases went on when
 removing the aliases failed

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 1ed82e7..d372c26 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -147,13 +147,20 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		if (info[zdssInfoKeys.kinfoAliasesBinAddress]) {
 			path = (char *)calloc(MAX_PATHNAME_SIZE, 1);
 			status = zaliasGetPrimary(ifltab, pathname, path, MAX_PATHNAME_SIZE);
+			if (zisError(status)) {
+				free(path);
+				zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+				return zerrorUpdate(ifltab, status, functionID);
+			}
 			//  Keep our lock, otherwise zaliasRemoveAll will release it when it is done
 			lockLevel = ifltab[zdssKeys.klockLevel];
 			ifltab[zdssKeys.klockLevel] = LOCKING_LEVEL_HIGH;
 			status = zaliasRemoveAll(ifltab, pathname);
 			ifltab[zdssKeys.klockLevel] = lockLevel;
 			ifltab[zdssKeys.kaddInfoLastPath] = 0;
-			status = zreadInfo(ifltab, path, readAction);
+			if (!zisError(status)) {
+				status = zreadInfo(ifltab, path, readAction);
+			}
 			free(path);
 			path = 0;
 			if (zisError(status)) {
-- 
2.43.0


From f12957ad3cef5d09b6107f37d6b9dfe334ce1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 103/154] fix: an operation inside another one unlocked the
 file when entering multi-user mode

---
 heclib/heclib_c/src/Internal/zlockActive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index 3572ac0..85ca3d8 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -382,6 +382,11 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					zpermRead(ifltab);
 				}
 			}
+			else if (ifltab[zdssKeys.klockLevel] == 0) {
+				//  Still locked from an earlier operation (advisory access).  If we have just gone into
+				//  multi-user mode, nested operations must not unlock before this level does.
+				ifltab[zdssKeys.klockLevel] = level;
+			}
 			//  Save PID on first write
 			if (ifltab[zdssKeys.kpidMyAddress] == 0) {
 				zpidWrite(ifltab);
-- 
2.43.0


From 7915cec0e279f85893ec85b2cdc82d708f5c65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:55 +0000
Subject: [PATCH 104/154] fix: a rename could collide with a store of the new
 name by another process

---
 heclib/heclib_c/src/Public/zrename.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 9f0a49d..8ea1ddd 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -54,8 +54,28 @@
 **/
 
 
+static int zrenameLocked(long long *ifltab, const char* oldPathname, const char* newPathname);
+
 //
 int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
+{
+	int status;
+
+	if (!oldPathname || !newPathname || (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE)) {
+		return zrenameLocked(ifltab, oldPathname, newPathname);
+	}
+
+	//  Lock the file if we are in a multi-user access mode, before looking at either name,
+	//  so that no other process can store or remove one of them between the checks and the rename
+	status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+	if (zisError(status)) {
+		return zerrorEncodeHigh(status, DSS_FUNCTION_zrename_ID);
+	}
+	status = zrenameLocked(ifltab, oldPathname, newPathname);
+	return zlockRelease(ifltab, LOCKING_LEVEL_HIGH, status);
+}
+
+static int zrenameLocked(long long *ifltab, const char* oldPathname, const char* newPathname)
 {
 	long long *info;
 	long long *infoOld;
@@ -145,13 +165,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 				free(newPath);
 				return status;
 			}
-			status = zrename(ifltab, oldPathname, tmpPath);
+			status = zrenameLocked(ifltab, oldPathname, tmpPath);
 			if (status != STATUS_OKAY) {
 				// error
 				free(newPath);
 				return status;
 			}
-			status = zrename(ifltab, tmpPath, newPathname);
+			status = zrenameLocked(ifltab, tmpPath, newPathname);
 			free(newPath);
 			return status;
 		}
-- 
2.43.0


From 6e070da5c74964879cec7ef49b0c27e7e87b74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 105/154] fix: the end of a regular pattern was reported one
 interval too late

---
 heclib/heclib_c/src/Public/ztsRetrievePattern.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztsRetrievePattern.c b/heclib/heclib_c/src/Public/ztsRetrievePattern.c
index 1f0a9bc..8a8f050 100644
--- a/heclib/heclib_c/src/Public/ztsRetrievePattern.c
+++ b/heclib/heclib_c/src/Public/ztsRetrievePattern.c
@@ -355,7 +355,7 @@ int ztsRetrievePattern(long long *ifltab, zStructTimeSeries *tss, int retrieveDo
 		}
 		tss->startJulianDate = julian;
 		tss->startTimeSeconds = seconds;
-		incrementTime(tss->timeIntervalSeconds, tss->numberValues, tss->startJulianDate, tss->startTimeSeconds,
+		incrementTime(tss->timeIntervalSeconds, (tss->numberValues - 1), tss->startJulianDate, tss->startTimeSeconds,
 			&tss->endJulianDate, &tss->endTimeSeconds);
 	}
 
-- 
2.43.0


From 39bc606aa06cc87c7e6d530165c0ead8f124e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 106/154] fix: profiles of two float depths were read as
 garbage when doubles were requested

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 07001e9..d91a7d1 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -450,7 +450,8 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 						//  No, just copy it	
 						//  Now get the int *4 length to copy
 						assert(valuesPosition < valuesArraySize);
-						if (valuesSizeRequested == valuesSizeRead) {
+						//  (For profiles, the size requested is that of an element, not of all depths)
+						if ((valuesSizeRequested == valuesSizeRead) && (profileDepthsNumber == 0)) {
 							//  Straight copy
 							startElement = startArray * valuesSizeRead;
 							endElement = endArray * valuesSizeRead;
@@ -1046,7 +1047,8 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 					if (valuesCompressionFlag == 0) {
 						//  No, just copy it
 						//  Now get the int *4 length to copy
-						if (valuesSizeRequested == valuesSizeRead) {
+						//  (For profiles, the size requested is that of an element, not of all depths)
+						if ((valuesSizeRequested == valuesSizeRead) && (profileDepthsNumber == 0)) {
 							//  Straight copy
 							startElement = startArray * valuesSizeRead;
 							endElement = endArray * valuesSizeRead;
-- 
2.43.0


From 5eba55476c0edbab516f023156a36a2c3f0519bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 107/154] fix: trimming a window with no profile values read
 and returned memory before the array

---
 heclib/heclib_c/src/Internal/ztsTrim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsTrim.c b/heclib/heclib_c/src/Internal/ztsTrim.c
index 762c954..9dc0308 100644
--- a/heclib/heclib_c/src/Internal/ztsTrim.c
+++ b/heclib/heclib_c/src/Internal/ztsTrim.c
@@ -239,7 +239,7 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 			return STATUS_NOT_OKAY;
 		}
 
-		if ((firstValid > 0) || (lastValid != (numberValues -1))) {
+		if ((firstValid > 0) || (lastValid < (numberValues -1))) {
 			//  Need to trim data sets
 			numberValues = lastValid - firstValid + 1;
 			numberToMalloc = numberValues * tss->profileDepthsNumber;
-- 
2.43.0


From 8d6d862971c49164effdc072f18eccad8e28e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 108/154] fix: arrays of more than 10 million words could be
 stored but not read

---
 heclib/heclib_c/src/Internal/zget.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zget.c b/heclib/heclib_c/src/Internal/zget.c
index cf08fea..a9bd8fc 100644
--- a/heclib/heclib_c/src/Internal/zget.c
+++ b/heclib/heclib_c/src/Internal/zget.c
@@ -93,7 +93,8 @@ int zget(long long *ifltab, long long iaddress,  int *iarray, int numberWords, i
 		}
 	}
 	//  Make sure the number of bytes to read is a reasonable number
-	if ((numberInts < 0) || (numberInts > 10000000)) {
+	//  (all that zput writes can be read)
+	if ((numberInts < 0) || (numberInts > 100000000)) {
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zget_ID, zdssErrorCodes.INVALID_NUMBER_TO_READ,
 										 numberInts, iaddress, zdssErrorSeverity.CORRUPT_FILE, "", "");
 	}
-- 
2.43.0


From b370174b76fa116481a9dd922390b253998e679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 109/154] fix: first and last times of regular records ignored
 the series' time offset

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index f4855ee..6fdb86a 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -838,7 +838,6 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 											notes, inoteElementSize,
 											cnotesToStore, cnotesToStoreLen,
 											&firstValid, &lastValid);
-		///////////////////  FIX ME - use time offset!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
 		//  The end of the first period in the block (months and years vary in length)
 		julianFirstPeriod = julianBlockDate;
 		secondsFirstPeriod = intervalSeconds;
@@ -872,6 +871,11 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 
 		//  Now store the block in the DSS file
 		// --------------   Main Write ------------------
+		//  The times computed are at the end of the period; report those of the values
+		if (internalHeader[INT_HEAD_timeOffset] != 0) {
+			ztsOffsetAdjustToOffset(internalHeader[INT_HEAD_timeOffset], intervalSeconds, &julianFirstValue, &secondsFirstValue);
+			ztsOffsetAdjustToOffset(internalHeader[INT_HEAD_timeOffset], intervalSeconds, &julianLastValue, &secondsLastValue);
+		}
 		ifltab[zdssKeys.kdataFirstDate] = i4toi8(julianFirstValue, secondsFirstValue);
 		ifltab[zdssKeys.kdataLastDate] = i4toi8(julianLastValue, secondsLastValue);
 
-- 
2.43.0


From 0b165c8a9828e6c5a1c12d4bf4ef918e96163eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 110/154] fix: record type in the catalogue stayed when a
 series changed between floats and doubles

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 3670357..ffcf92e 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -146,6 +146,7 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	int newSize;
 	int longSize;
 	int temp;
+	int catSort;
 	int diff;
 	int type;
 	int version;
@@ -221,9 +222,13 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	i8toi4(ifltab[zdssKeys.kdataFirstDate], &julianFirst, &temp);
 	i8toi4(ifltab[zdssKeys.kdataLastDate],  &julianLast,  &temp);
 	ifltab[zdssKeys.kbinDates] = i4toi8(julianFirst, julianLast);
-	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinLastWrite;
+	//  The data type can change too (between float and double time series)
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &temp, &catSort);
+	ifltab[zdssKeys.kbinTypeAndCatSort] = i4toi8(ztransfer->dataType, catSort);
+	address = ifltab[zdssKeys.kinfoAddInBin] - zdssBinKeys.kbinInfoAdd +  zdssBinKeys.kbinTypeAndCatSort;
 
-	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinLastWrite], 2, 2);
+	//  Type, last write time and dates follow each other
+	status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinTypeAndCatSort], 3, 2);
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteExisting_ID);
 	}
-- 
2.43.0


From 95bd8d274de0770db9d39b19dba80649d6eb27ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 111/154] fix: changed records compared by checksum left out
 new records

---
 .../heclib_c/src/Public/zwhatChangedCompare.c  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 10923b8..d64b242 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "zdssKeys.h"
 #include "hecdss7.h"
@@ -57,6 +58,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	int count;
 	int i;
 	int j;
+	int boolChanged;
 	int *index;
 	zStructCatalog *catStruct;
 
@@ -120,15 +122,20 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 
 	count = 0;
 	for (i=0; i<catStruct->numberPathnames; i++) {
+		boolChanged = 1;  //  A record that was not there before is a change
 		for (j=0; j<catStructBefore->numberPathnames; j++) {
-			if (catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) {
+			//  Different pathnames can have the same hash code
+			if ((catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) &&
+				zstringCompare(catStruct->pathnameList[i], catStructBefore->pathnameList[j], strlen(catStruct->pathnameList[i]) + 1)) {
 				//  We have an updated record.  Has the data changed?
-				if (catStruct->crcValues[i] != catStructBefore->crcValues[j]) {
-					//  Found One.  The CRC value has changed, so the data set has too.
-					index[count++] = i;
-				}
+				//  If the CRC value has changed, then the data set has too.
+				boolChanged = (catStruct->crcValues[i] != catStructBefore->crcValues[j]);
+				break;
 			}
 		}
+		if (boolChanged) {
+			index[count++] = i;
+		}
 	}
 
 	if (count == 0) {
@@ -193,6 +200,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	for (i=0; i<count; i++) {
 		j = index[i];
 		catStructChanged->pathnameList[i] = mallocAndCopy(catStruct->pathnameList[j]);
+		catStructChanged->recordType[i] = catStruct->recordType[j];
 		catStructChanged->pathnameHash[i] = catStruct->pathnameHash[j];
 		catStructChanged->lastWriteTimeRecord[i] = catStruct->lastWriteTimeRecord[j];
 		catStructChanged->crcValues[i] = catStruct->crcValues[j];
-- 
2.43.0


From 3ad1234d6ad5b98767e53f1aee3fac82db315167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 112/154] fix: comparing time series of different lengths read
 beyond the shorter one

---
 heclib/heclib_c/src/SemiPublic/zcompareDataSets.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/SemiPublic/zcompareDataSets.c b/heclib/heclib_c/src/SemiPublic/zcompareDataSets.c
index 674990e..d0d1f8d 100644
--- a/heclib/heclib_c/src/SemiPublic/zcompareDataSets.c
+++ b/heclib/heclib_c/src/SemiPublic/zcompareDataSets.c
@@ -1824,6 +1824,12 @@ int zcompareTimeArrays(long long *ifltab, zStructTimeSeries *struct1, zStructTim
 
 	}
 	else if ((struct1->times) && (struct2->times)) {
+		//  The arrays are only as long as the number of values
+		status = zcompareInts(ifltab, struct1->numberValues, struct2->numberValues, verboseLevel, " numberValues differs");
+		if (status) {
+			zprintFailMessage(ifltab, verboseLevel, name, struct1->pathname, message);
+			return status;
+		}
 
 		for (i = 0; i<struct1->numberValues; i++) {
 
-- 
2.43.0


From 69508a8455b67c8a07809ddc6d9e944ce6303839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 113/154] fix: a record undeleted from reclaimed space could be
 overwritten, or come back with other data

---
 .../heclib_c/src/Internal/zdeleteInternal.c   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index d372c26..e55e0ac 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -127,11 +127,23 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		return zerrorUpdate(ifltab, status, functionID);
 	}
 
+	if (boolUndelete && (status == STATUS_OKAY)) {
+		//  Be sure that this space still holds the deleted record, and is not used by
+		//  another record (which may have the same hash code)
+		info = (long long *)ifltab[zdssKeys.kinfo];
+		if ((info[zdssInfoKeys.kinfoStatus] != REC_STATUS_DELETED) ||
+			(info[zdssInfoKeys.kinfoPathnameLength] != ifltab[zdssKeys.klenLastPath]) ||
+			!zpathnameCompare(pathname, &info[zdssInfoKeys.kinfoPathname], (size_t)ifltab[zdssKeys.klenLastPath])) {
+			status = STATUS_RECORD_NOT_FOUND;
+		}
+	}
+
 	if (status == STATUS_OKAY) {
 		//  If undeleting, make sure reclamation is off, otherwise this space
 		//  could be used by something else
-		//  (at this point, we know it has not been used because hashes match in info.)
-		if (boolUndelete && (ifltab[zdssKeys.kreclaimLevel] != RECLAIM_NONE)) {
+		//  (at this point, we know it has not been used because the info block is intact.)
+		//  The space may be listed as available even if reclamation is off for this handle
+		if (boolUndelete && ((ifltab[zdssKeys.kreclaimLevel] != RECLAIM_NONE) || (fileHeader[zdssFileKeys.kreclaimTotal] > 0))) {
 			//  Turn off reclamation for this delete
 			status = zreclaimSet(ifltab, RECLAIM_NONE);
 			if (zisError(status)) {
@@ -228,6 +240,14 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 				}
 				else {
 					//  Release the info block and the data separately
+					//  The data space can now be used while the info block is still intact,
+					//  so be sure that this record cannot be undeleted
+					info[zdssInfoKeys.kinfoHash] = 0;
+					status = zput(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfo, 2);
+					if (zisError(status)) {
+						zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+						return zerrorUpdate(ifltab, status, functionID);
+					}
 					status = zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], numberInfo);
 					if (!zisError(status)) {
 						status = zreleaseFileSpace(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], releasedAmount - numberInfo);
-- 
2.43.0


From da4b01fa564db101ba430d80ab1796b86c5b67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 114/154] fix: a refused open leaves the handle unusable and
 frees pointers that were not allocated

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 27 +++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index ebc70fc..e1425b7 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -88,8 +88,29 @@
 **/
 
 
+ static int zopenDssFile(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
+	 int hashSize, int binSize, int boolReopen);
+
  int zopenInternal(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
 	 int hashSize, int binSize, int boolReopen)
+ {
+	 int i;
+	 int status;
+
+	 status = zopenDssFile(ifltab, dssFilename, access, maxExpectedPathnames, hashSize, binSize, boolReopen);
+	 if (status != STATUS_OKAY) {
+		 //  The file is not open (it has been closed, if it was opened).  Release any memory allocated
+		 //  and mark the table as closed, so that it cannot be used for what the handle now belongs to.
+		 zmemoryFree(ifltab);
+		 for (i = 0; i < 50; i++) {
+			 ifltab[i] = 0;
+		 }
+	 }
+	 return status;
+ }
+
+ static int zopenDssFile(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
+	 int hashSize, int binSize, int boolReopen)
  {
 	 int ihandle;
 	 int status;
@@ -379,8 +400,6 @@
 		ifltab[zdssKeys.kmultiUserAccess] = EXCLUSIVE_ACCESS;
 		status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 		if (zisError(status)) {
-			free((void*)ifltab[zdssKeys.kfileHeader]);
-			free((void*)ifltab[zdssKeys.kpathBin]);
 			closeFile(ihandle);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
 		}
@@ -431,10 +450,6 @@
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((void*)ifltab[zdssKeys.kfileHeader]);
-		free((void*)ifltab[zdssKeys.kpathBin]);
-		free((void*)ifltab[zdssKeys.kfilename]);
-		free((void*)ifltab[zdssKeys.kfullFilename]);
 		closeFile(ihandle);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
 	}
-- 
2.43.0


From 204272f5c08619ea621f67b177421aedabf64486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 115/154] fix: the size of the file header read from a file is
 not validated before it is used

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 5 +++++
 heclib/heclib_c/src/headers/zdssVals.h       | 1 +
 2 files changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index e1425b7..2b98dd7 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -302,6 +302,11 @@
 			//  Good to go.
 			//  Get the size of the permanent section
 			ifltab[zdssKeys.kfiHeadSize] = iarray[1];
+			if ((iarray[1] <= zdssFileKeys.kendFileHeader) || (iarray[1] > DSS_MAX_FILE_HEADER_SIZE)) {
+				closeFile(ihandle);
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER, 0,
+					iarray[1], zdssErrorSeverity.CORRUPT_FILE, "", "Invalid file header size");
+			}
 		}
 	}
 
diff --git a/heclib/heclib_c/src/headers/zdssVals.h b/heclib/heclib_c/src/headers/zdssVals.h
index 189debf..dfd6cc8 100644
--- a/heclib/heclib_c/src/headers/zdssVals.h
+++ b/heclib/heclib_c/src/headers/zdssVals.h
@@ -39,6 +39,7 @@ extern struct hec_zdssVals zdssVals;
 #define DSS_NUMBER_LOCK_ATTEMPS		100
 
 #define DSS_MIN_FILE_HEADER_SIZE	100
+#define DSS_MAX_FILE_HEADER_SIZE	10000
 //  Keep track of how many other files are accessing this one
 #define DSS_LOCK_ARRAY_SIZE			25
 
-- 
2.43.0


From 6011641512c89f28e650104bd0cdd3bbe31e968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 116/154] fix: zgetFileVersion reports a version for files too
 short to have one

---
 heclib/heclib_c/src/Public/zgetFileVersion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zgetFileVersion.c b/heclib/heclib_c/src/Public/zgetFileVersion.c
index 7a9c630..7e6eb1e 100644
--- a/heclib/heclib_c/src/Public/zgetFileVersion.c
+++ b/heclib/heclib_c/src/Public/zgetFileVersion.c
@@ -70,6 +70,11 @@
 	}
 
 	iswap = bigEndian();
+	//  A file that is too small for the identifier and version cannot be a DSS file
+	if (zfileSize(ihandle) < (long long)sizeof(iarray)) {
+		closeFile(ihandle);
+		return STATUS_NOT_OKAY;
+	}
 	status = zreadDisk (ihandle, iswap, 0L, iarray, 2*4);
 	closeFile(ihandle);
 
-- 
2.43.0


From 271c6bcf80aac4a048feb8892552247f00213e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 117/154] fix: a negative system error alters the DSS error
 number in the error code

---
 heclib/heclib_c/src/Internal/zerrorEncode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncode.c b/heclib/heclib_c/src/Internal/zerrorEncode.c
index 0a3b165..538bb72 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncode.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncode.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include "hecdssInternal.h"
 
 /**
@@ -53,7 +55,8 @@ int zerrorEncode(int severity, int highFunction, int lowFunction, int dssError,
 	if ((systemError > 99) || (systemError < -9)) {
 		systemError = 0;
 	}
-	errorCode  =  systemError;
+	//  A negative number would borrow from the DSS error number
+	errorCode  =  abs(systemError);
 	errorCode +=  dssError * 100;
 	errorCode +=  lowFunction * 10000;
 	errorCode +=  highFunction * 1000000;
-- 
2.43.0


From bfd5fb624a015b13d93804a04d93c9b543e6fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 118/154] fix: zpermCreate frees invalid pointers when the file
 cannot be created

---
 heclib/heclib_c/src/Internal/zpermCreate.c | 36 ++++++++--------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpermCreate.c b/heclib/heclib_c/src/Internal/zpermCreate.c
index d09b1df..befb816 100644
--- a/heclib/heclib_c/src/Internal/zpermCreate.c
+++ b/heclib/heclib_c/src/Internal/zpermCreate.c
@@ -118,8 +118,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Record header (info area)
 	status = zmemoryGet(ifltab, zdssKeys.kinfo, zdssVals.maxInfoSize, "Record header (info area)");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -225,8 +224,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write these initial values to the permanent area (file header)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -278,8 +276,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockWriteArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockWriteArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -287,8 +284,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockReadArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockReadArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -296,8 +292,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kpidArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kpidArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -312,8 +307,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddHashTableStart] = zgetFileSpace(ifltab, size, 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddHashTableStart], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -326,8 +320,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kreclaimTotal] = 0;
@@ -342,8 +335,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddNextEmptyBin] = fileHeader[zdssFileKeys.kaddFirstBin];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddFirstBin], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock];
@@ -351,24 +343,21 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write the EOF flag
 	status = zwriteEOF(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Write updated header to disk (includes hash table, path bin)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Force flush to disk
 	status = zflushToDisk(ifltab, 1);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -378,8 +367,7 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
+		zmemoryFree(ifltab);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
-- 
2.43.0


From 2d215f675bbd9f483ccfc28e0f92155486070c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 119/154] fix: messages with long names overflow the message
 buffer

---
 heclib/heclib_c/src/Internal/zmessConcat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zmessConcat.c b/heclib/heclib_c/src/Internal/zmessConcat.c
index cd6770b..ae381eb 100644
--- a/heclib/heclib_c/src/Internal/zmessConcat.c
+++ b/heclib/heclib_c/src/Internal/zmessConcat.c
@@ -54,10 +54,12 @@ char *zmessConcat1(char *messIn, size_t sizeIn, const char *message)
 		return messOut;
 	}
 
+	if (lenMessIn > 0)  {
+		lenCombined++;  //  For new line at beginning of message
+	}
 	if (lenCombined > (int)sizeIn) lenCombined = (int)sizeIn;
 
 	if (lenMessIn > 0)  {
-		lenCombined++;  //  For new line at beginning of message
 		stringCat(messOut, (size_t)lenCombined, "\n", _TRUNCATE);
 	}
 	stringCat(messOut, (size_t)lenCombined, message, _TRUNCATE);
-- 
2.43.0


From 43f46a863c8c24fba4c7212e45b809c6f6bed308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 120/154] fix: zopenLog with no name uses an integer as the
 file table

---
 heclib/heclib_c/src/Public/zopenLog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zopenLog.c b/heclib/heclib_c/src/Public/zopenLog.c
index b36ed5f..d50db8b 100644
--- a/heclib/heclib_c/src/Public/zopenLog.c
+++ b/heclib/heclib_c/src/Public/zopenLog.c
@@ -37,10 +37,10 @@ int zopenLog(const char *logFileName)
 {
 	int handle;
 	int status;
+	long long ifltab[250] = {0};
 
 	if (!logFileName) {
-		handle = 0;
-		return zerrorProcessing((long long *)&handle, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NULL_FILENAME,
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NULL_FILENAME,
 			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "zopenLog");
 	}
 
-- 
2.43.0


From f5ceb6ef41ff72b2a9a9b0e809e78755264f3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 121/154] fix: file names of more than 255 characters overflow
 buffers or lose their end

---
 heclib/heclib_c/src/Internal/charLong.c          | 3 +++
 heclib/heclib_c/src/Internal/zcheckAccessReset.c | 4 ++--
 heclib/heclib_c/src/Public/zsqueeze7.c           | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/charLong.c b/heclib/heclib_c/src/Internal/charLong.c
index a3d767a..dcf2db7 100644
--- a/heclib/heclib_c/src/Internal/charLong.c
+++ b/heclib/heclib_c/src/Internal/charLong.c
@@ -87,6 +87,8 @@ int charLong(void *from, void *to, int numberBytes, int maxBytesTo, int boolToLo
 				charTo[numberBytes++] = charFrom[i];
 				if (charFrom[i] == '\0') break;
 			}
+			//  A string that had to be cut still has to end
+			if (!boolToLong && (numberBytes > 0)) charTo[numberBytes - 1] = '\0';
 		}
 		if (zeroEndFlag > 0) {
 			if (zeroEndFlag == 1) {
@@ -176,6 +178,7 @@ int charLong(void *from, void *to, int numberBytes, int maxBytesTo, int boolToLo
 					}
 					if (done) break;
 				}
+				if (numberBytes > 0) charTo[numberBytes - 1] = '\0';
 			}
 			if (zeroEndFlag > 0) {
 				if (zeroEndFlag == 1) {
diff --git a/heclib/heclib_c/src/Internal/zcheckAccessReset.c b/heclib/heclib_c/src/Internal/zcheckAccessReset.c
index ea39ad7..f74b576 100644
--- a/heclib/heclib_c/src/Internal/zcheckAccessReset.c
+++ b/heclib/heclib_c/src/Internal/zcheckAccessReset.c
@@ -58,7 +58,7 @@ int zcheckAccessReset(long long *ifltab, int boolForce, int quiescentTimeMills)
 	int status;
 	int access;
 	long long ltime;
-	char fullFilename[256];
+	char fullFilename[MAX_FILENAME_LENGTH];
 
 
 
@@ -131,7 +131,7 @@ int zcheckAccessReset(long long *ifltab, int boolForce, int quiescentTimeMills)
 	int numberWrites;
 	long long ltime;
 	char messageString[120];
-	char fullFilename[256];
+	char fullFilename[MAX_FILENAME_LENGTH];
 
 
 	charLong((void *)ifltab[zdssKeys.kfullFilename], fullFilename, 0, sizeof(fullFilename), 0, 1);
diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 2987b20..63879b7 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -81,10 +81,10 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 
 	long long ifltabTemp[400] = {0};
 
-	char fullFilename[MAX_PATH] = {0};
-	char filename[MAX_PATH] = {0};
+	char fullFilename[MAX_FILENAME_LENGTH] = {0};
+	char filename[MAX_FILENAME_LENGTH] = {0};
 	TCHAR tempDirW[MAX_PATH] = {0};
-	char tempName[MAX_PATH] = {0};
+	char tempName[MAX_FILENAME_LENGTH + 48] = {0};
 	char uniqueName[48] = {0};
 	size_t len = 0;
 	int ihandle = 0;
-- 
2.43.0


From 246d3567af9c1b5f8a4a5e207c04b5dca7f89e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 122/154] fix: empty file names, and names that are too long
 and get shortened to another file, are accepted

---
 heclib/heclib_c/src/System/zfileName.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/System/zfileName.c b/heclib/heclib_c/src/System/zfileName.c
index b4d1abd..77ba720 100644
--- a/heclib/heclib_c/src/System/zfileName.c
+++ b/heclib/heclib_c/src/System/zfileName.c
@@ -77,6 +77,13 @@ struct stat buf;
 	foundExtension = 0;
 	*permission = 0;
 	len = strlen(dssFileName);
+	//  A name that is empty, or that does not fit, cannot be used
+	//  (a shortened name would be that of another file)
+	if ((len == 0) || (strcmp(dssFileName, "\"") == 0) || (strcmp(dssFileName, "\"\"") == 0) ||
+		(len + 5 > MAX_FILENAME_LENGTH)) {
+		fullDssFilename[0] = '\0';
+		return STATUS_NOT_OKAY;
+	}
 	//  If a quoted string, remove quotes
 	if (dssFileName[len-1] == '\"') {
 		len--;
@@ -160,6 +167,11 @@ struct stat buf;
 		 stringCopy(fullDssFilename, sizeofFilename, name, strlen(name));
 	 }
 	 else {
+		 if (strlen(fullName) >= sizeofFilename) {
+			 free(fullName);
+			 fullDssFilename[0] = '\0';
+			 return STATUS_NOT_OKAY;
+		 }
 		 stringCopy(fullDssFilename, sizeofFilename, fullName, strlen(fullName));
 		 free(fullName);
 	 }
-- 
2.43.0


From 9a754770ad1673989f02bc05d8af16eb64ce7c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 123/154] fix: zcheckFile reports an error of an earlier,
 unrelated operation

---
 heclib/heclib_c/src/Public/zcheckFile.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zcheckFile.c b/heclib/heclib_c/src/Public/zcheckFile.c
index 30f09c1..a43b8bb 100644
--- a/heclib/heclib_c/src/Public/zcheckFile.c
+++ b/heclib/heclib_c/src/Public/zcheckFile.c
@@ -39,6 +39,7 @@ int zcheckFile(long long *ifltab)
 {
 
 	int istat;
+	int errorOnEntry;
 	long long *fileHeader;
 	char ctemp[5] = {0};
 
@@ -55,6 +56,10 @@ int zcheckFile(long long *ifltab)
 	*/
 
 
+	//  An error reported before this check (e.g., by a refused operation, or for
+	//  another file) says nothing about this file - only look for new errors
+	zinquireChar(ifltab, "error", ctemp, sizeof(ctemp), &errorOnEntry);
+
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	zresetProgress(zhandle(ifltab), fileHeader[zdssFileKeys.knumberRecords]);
 	zprogress.handle = zhandle(ifltab);
@@ -63,7 +68,7 @@ int zcheckFile(long long *ifltab)
 	if (istat != STATUS_OKAY)
 		return istat;
 	zinquireChar(ifltab, "error", ctemp, sizeof(ctemp), &istat);
-	if (istat != STATUS_OKAY)
+	if (istat != errorOnEntry)
 		return istat;
 
 	zresetProgress(zhandle(ifltab), fileHeader[zdssFileKeys.knumberRecords]);
@@ -73,7 +78,7 @@ int zcheckFile(long long *ifltab)
 	if (istat != STATUS_OKAY)
 		return istat;
 	zinquireChar(ifltab, "error", ctemp, sizeof(ctemp), &istat);
-	if (istat != STATUS_OKAY)
+	if (istat != errorOnEntry)
 		return istat;
 
 	zresetProgress(zhandle(ifltab), fileHeader[zdssFileKeys.knumberRecords]);
@@ -83,7 +88,7 @@ int zcheckFile(long long *ifltab)
 	if (istat != STATUS_OKAY)
 		return istat;
 	zinquireChar(ifltab, "error", ctemp, sizeof(ctemp), &istat);
-	if (istat != STATUS_OKAY)
+	if (istat != errorOnEntry)
 		return istat;
 
 	zresetProgress(zhandle(ifltab), fileHeader[zdssFileKeys.knumberRecords]);
@@ -93,9 +98,9 @@ int zcheckFile(long long *ifltab)
 	if (istat != STATUS_OKAY)
 		return istat;
 	zinquireChar(ifltab, "error", ctemp, sizeof(ctemp), &istat);
-	if (istat != STATUS_OKAY)
+	if (istat != errorOnEntry)
 		return istat;
 
-	return istat;
+	return STATUS_OKAY;
 }
 
-- 
2.43.0


From 4e0c7c1f9156f6566e5bfd913840061cbdf70751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 124/154] fix: storing a series with an undefined start date
 fails an assertion

---
 heclib/heclib_c/src/Internal/ztsProcessTimes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsProcessTimes.c b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
index 6a72823..e3404b7 100644
--- a/heclib/heclib_c/src/Internal/ztsProcessTimes.c
+++ b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
@@ -520,6 +520,11 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 		}
 	}
 
+	//  Data cannot be stored without a time (an invalid date or time is undefined)
+	if (boolStore && (status >= 0) && !isTimeDefined(tss->timeWindow->startJulian, tss->timeWindow->startTimeSeconds)) {
+		status = STATUS_NOT_OKAY;
+	}
+
 	if (boolStore) {
 		tss->processedAlready = 2;
 	}
-- 
2.43.0


From 8d79e6ddb01c9dc647724be3ccb004b0a187318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 125/154] fix: a time window without an end makes retrieval
 search for ages or read beyond arrays

---
 heclib/heclib_c/src/Internal/ztsProcessTimes.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsProcessTimes.c b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
index e3404b7..40eb956 100644
--- a/heclib/heclib_c/src/Internal/ztsProcessTimes.c
+++ b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
@@ -356,6 +356,15 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 	}
 
 	if (isTimeDefined(tss->timeWindow->startJulian, tss->timeWindow->startTimeSeconds)) {
+		if (!isTimeDefined(tss->timeWindow->endJulian, tss->timeWindow->endTimeSeconds) &&
+			((tss->timeWindow->intervalSeconds <= 0) || (tss->numberValues <= 0))) {
+			//  A time window without an end (e.g., an invalid date)
+			if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_GENERAL)) {
+				zmessage2(ifltab, "The time window for time series data has no end: ", path);
+			}
+			free(path);
+			return STATUS_NOT_OKAY;
+		}
 		if (tss->timeWindow->intervalSeconds > 0) {
 			//   Regular. 
 			if (!(startDefined && endDefined)) {
-- 
2.43.0


From 8086c6986282aae4c37e8923c13527d6d765c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 126/154] fix: ztextRetrieveToFile closes a null file when the
 output cannot be opened

---
 heclib/heclib_c/src/Public/ztextRetrieveToFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
index a8fc12b..b9885f5 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
@@ -89,7 +89,7 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 	}
 #endif
 	if (status != 0) {
-		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextRetrieve_ID,
 					zdssErrorCodes.UNABLE_TO_WRITE_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
-- 
2.43.0


From b1e7cc38b03424fe636cdcadebbabca685a425bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 127/154] fix: zpdStore deletes the existing record before it
 checks what it was given

---
 heclib/heclib_c/src/Public/zpdStore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index d33f268..3427da2 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -709,7 +709,10 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			internalHeader[INT_HEAD_pdPrecision] = (pds->xprecision * 10) + pds->yprecision;
 		}
 		numberValues = pds->numberCurves * pds->numberOrdinates;
-		if (numberValues <= 0) {
+		//  (when only allocating space - flags above 5 - values are not used)
+		if ((pds->numberOrdinates < 1) || (pds->numberCurves < 1) ||
+			(!pds->floatOrdinates && !pds->doubleOrdinates) ||
+			((storageFlag < 6) && (pds->floatOrdinates ? !pds->floatValues : !pds->doubleValues))) {
 			FREE_TEMPS_AND_RESTORE
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.NO_DATA_GIVEN, numberValues, 0,
-- 
2.43.0


From ce7edbb694941523e3db1056001683921c87fc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 128/154] fix: storing grids or TINs with negative sizes or
 without data crashes

---
 heclib/heclib_c/src/Public/zspatialGridStore.c | 6 ++++++
 heclib/heclib_c/src/Public/zspatialTinStore.c  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zspatialGridStore.c b/heclib/heclib_c/src/Public/zspatialGridStore.c
index c522327..3240e8a 100644
--- a/heclib/heclib_c/src/Public/zspatialGridStore.c
+++ b/heclib/heclib_c/src/Public/zspatialGridStore.c
@@ -91,6 +91,12 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 	}
 
 
+	if ((gridStruct->_numberOfCellsX < 0) || (gridStruct->_numberOfCellsY < 0) || (gridStruct->_numberOfRanges < 0) ||
+		(!gridStruct->_data && (preCompressedSize || (gridStruct->_numberOfCellsX * gridStruct->_numberOfCellsY > 0)))) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialGridStore_ID, zdssErrorCodes.NO_DATA_GIVEN,
+			0, 0, zdssErrorSeverity.WARNING, gridStruct->pathname, "");
+	}
+
 	ztransfer = zstructTransferNew(gridStruct->pathname, 0);
 	if (!ztransfer) {
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialGridStore_ID,
diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index f922d24..8eab7ee 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -84,6 +84,11 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	}
 
 
+	if ((tinStruct->numberPoints < 0) || (tinStruct->connectTableLen < 0) || (tinStruct->pointLabelLen < 0)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialTinStore_ID, zdssErrorCodes.NO_DATA_GIVEN,
+								tinStruct->numberPoints, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "");
+	}
+
 	ztransfer = zstructTransferNew(tinStruct->pathname, 0);
 	if (!ztransfer) {
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialTinStore_ID,
-- 
2.43.0


From e9a51e26b5d13baab42644b192a44028601d2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 129/154] fix: names that are no complete pathnames make
 zcopyRecord and zpathnameSetPart use uninitialised positions

---
 heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c | 5 ++++-
 heclib/heclib_c/src/Public/zpathnamePartPositions.c   | 4 ++++
 heclib/heclib_c/src/Public/zpathnameSetPart.c         | 5 ++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index c347f96..5c125f7 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -104,7 +104,10 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 		boolInternalCopy = 1;
 		if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
 			//  An E part of "MIN" is not compatible with "Minutes" for version 7
-			zpathnamePartPositions(pathnameTo, pathnameToLen, positions, 7);
+			if ((zpathnamePartPositions(pathnameTo, pathnameToLen, positions, 7) < 1) || (positions[5] > (int)pathnameToLen)) {
+				return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyRecord_ID, zdssErrorCodes.INVALID_PATHNAME,
+					0, 0, zdssErrorSeverity.INVALID_ARGUMENT, pathnameTo, "Not a time series pathname");
+			}
 			lenPartE = positions[5] - positions[4] - 1;
 			if (lenPartE < 6) {
 				ipos = positions[5] - 4;
diff --git a/heclib/heclib_c/src/Public/zpathnamePartPositions.c b/heclib/heclib_c/src/Public/zpathnamePartPositions.c
index 665f33c..81332b7 100644
--- a/heclib/heclib_c/src/Public/zpathnamePartPositions.c
+++ b/heclib/heclib_c/src/Public/zpathnamePartPositions.c
@@ -63,6 +63,10 @@ int zpathnamePartPositions (const char *pathname, size_t pathnameLen, int positi
 
 	number = zpathnamePartLengths(pathname, pathnameLen, &positions[1], size);
 	if (number < 1) {
+		//  No parts
+		for (i=0; i<=size; i++) {
+			positions[i] = 1;
+		}
 		return number;
 	}
 
diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3d40eab..ac685bf 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -59,7 +59,10 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 
 	//  Determine the position of the part and
 	//  the lengths of the old and new parts
-	zpathnamePartPositions(pathname, strlen(pathname), positions, 7);
+	if ((zpathnamePartPositions(pathname, strlen(pathname), positions, 7) < 7) || (positions[6] - 1 > (int)strlen(pathname))) {
+		//  Not a (complete) pathname
+		return STATUS_NOT_OKAY;
+	}
 	end = positions[partPosition];
 	start = positions[partPosition-1];
 	oldLength = end - start -1;
-- 
2.43.0


From 9b281b4c45091e531b510e235920775b9e0df418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 130/154] fix: hec_dss_tsRetrieveInfo interprets records that
 are not time series

---
 heclib/hecdss/hecdss.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index f0cd570..3a7dc0c 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -314,6 +314,11 @@ HECDSS_API int hec_dss_tsRetrieveInfo(dss_file* pdss, const char* pathname,char*
     zStructTimeSeries* tss = zstructTsNew(pathname);
     transfer->internalHeaderMode = 1;
     int status = zread(pdss->ifltab, transfer);
+    if (status == 0 && (transfer->dataType < DATA_TYPE_RTS || transfer->dataType >= DATA_TYPE_PD))
+    {
+      // the record is not a time series: its internal header has nothing to do with units and type
+      status = STATUS_NOT_OKAY;
+    }
     if (status == 0)
     {
       int intervalType = ztsProcessTimes(pdss->ifltab, tss, 0);
-- 
2.43.0


From 008967c5985486a1386ca6b23d81bf9ebb28ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 131/154] fix: ztextRetrieveToFile of a record that does not
 exist empties the file and reports success

---
 heclib/heclib_c/src/Public/ztextRetrieveToFile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
index b9885f5..cc9862d 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
@@ -76,6 +76,11 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 		zstructFree(textStruct);
 		return status;
 	}
+	if (status != STATUS_RECORD_FOUND) {
+		//  No such record; leave the file alone
+		zstructFree(textStruct);
+		return status;
+	}
 
 #ifdef _MSC_VER
 	status = fopen_s(&textFileFP, filename, "w");
-- 
2.43.0


From db3ac683d8f58fcccf95ea81ed44a6835d8622e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 132/154] fix: ztextRetrieveToFile writes only the first part
 of tables with several columns

---
 heclib/heclib_c/src/Public/ztextRetrieveToFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
index cc9862d..a5d72d0 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
@@ -108,7 +108,7 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 
 	if (textStruct->numberTableChars > 0) {
 		charCount = 0;
-		for (i = 0; i < textStruct->numberRows; i++) {
+		for (i = 0; (i < textStruct->numberRows * textStruct->numberColumns) && (charCount < textStruct->numberTableChars); i++) {
 			len = (int)strlen(&textStruct->textTable[charCount]);
 			fwrite((const char*)&textStruct->textTable[charCount], sizeof(char), (size_t)len, textFileFP);
 			charCount += len + 1;
-- 
2.43.0


From 233c4bc16daddba86a97be9fac2a2455fb4d44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 133/154] fix: zbinaryRetrieveToFile cannot write to the file
 it opens

---
 .../src/Public/zbinaryRetrieveToFile.c        | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c b/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
index a90bc8c..f853819 100644
--- a/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
@@ -50,7 +50,6 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 	int status;
 	zStructTransfer* ztransfer;
 	int ihandle;
-	int access;
 	char messageString[80];
 
 
@@ -94,9 +93,23 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 		return status;
 	}
 
-	access = 0;
-	status = zopenDisk(filename, &ihandle, access, 0);
-	if (status != STATUS_OKAY) {
+	if (numberIntsInBytes(ztransfer->logicalNumberValues) > ztransfer->values1Number) {
+		//  Not the bytes of a file, but some other kind of record
+		status = zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
+								zdssErrorCodes.WRONG_RECORD_TYPE, ztransfer->dataType, 0,
+								zdssErrorSeverity.WARNING, pathname, "");
+		zstructFree(ztransfer);
+		return status;
+	}
+
+	//  Write the file anew (its length must be that of the data)
+#ifdef _MSC_VER
+	ihandle = zopenFile(filename, (_O_WRONLY | _O_CREAT | _O_TRUNC | _O_BINARY));
+#else
+	ihandle = zopenFile(filename, (O_WRONLY | O_CREAT | O_TRUNC));
+#endif
+	if (ihandle < 0) {
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
 								zdssErrorCodes.UNABLE_TO_WRITE_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -105,6 +118,8 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 	status = writeBytes(ihandle, (const char *)ztransfer->values1, ztransfer->logicalNumberValues);
 	if (status < 0) {
 		perror("Write status");
+		closeFile(ihandle);
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
 								zdssErrorCodes.UNABLE_TO_WRITE_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
-- 
2.43.0


From 273323ae81ed45fd83754c3aee03f540e0b7cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 134/154] fix: storing profiles without depths or values
 crashes

---
 heclib/heclib_c/src/Public/ztsStore.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index be4da1d..7d6191d 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -268,6 +268,16 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 			return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID, zdssErrorCodes.NO_DATA_GIVEN,
 				tss->numberValues, 0, zdssErrorSeverity.WARNING, tss->pathname, "");
 		}
+		if (!tss->floatValues && !tss->doubleValues) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID, zdssErrorCodes.NO_DATA_GIVEN,
+				tss->numberValues, 0, zdssErrorSeverity.WARNING, tss->pathname, "Profile values without depths");
+		}
+	}
+	else if ((tss->profileDepthsNumber < 0) || (tss->numberValues < 0) ||
+		(!tss->floatProfileDepths && !tss->doubleProfileDepths) ||
+		(!tss->floatProfileValues && !tss->doubleProfileValues)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID, zdssErrorCodes.NO_DATA_GIVEN,
+			tss->numberValues, 0, zdssErrorSeverity.WARNING, tss->pathname, "");
 	}
 
 	//  Messages and debug
-- 
2.43.0


From 4c6a6dab51e023894d11911d9c40762af3071018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 135/154] fix: ztsStore reads quality or notes arrays that are
 not there

---
 heclib/heclib_c/src/Public/ztsStore.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 7d6191d..ec09776 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -280,6 +280,14 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 			tss->numberValues, 0, zdssErrorSeverity.WARNING, tss->pathname, "");
 	}
 
+	//  The sizes of quality and notes must go with what is given
+	if ((tss->qualityElementSize < 0) || ((tss->qualityElementSize > 0) && !tss->quality) ||
+		(tss->inoteElementSize < 0) || ((tss->inoteElementSize > 0) && !tss->inotes) ||
+		(tss->cnotesLengthTotal < 0) || ((tss->cnotesLengthTotal > 0) && !tss->cnotes)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID, zdssErrorCodes.NULL_ARGUMENT,
+			0, 0, zdssErrorSeverity.WARNING, tss->pathname, "Quality or notes do not match their sizes");
+	}
+
 	//  Messages and debug
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessage(ifltab, " ");
-- 
2.43.0


From adbf129d753555741389363267eadcecf41720bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 136/154] fix: zrename and zaliasAdd accept new names that
 cannot be read or catalogued

---
 heclib/heclib_c/src/Public/zaliasAdd.c        |  6 ++++++
 .../src/Public/zpathnamePartPositions.c       | 21 +++++++++++++++++++
 heclib/heclib_c/src/Public/zrename.c          |  6 ++++++
 heclib/heclib_c/src/headers/hecdssInternal.h  |  1 +
 4 files changed, 34 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zaliasAdd.c b/heclib/heclib_c/src/Public/zaliasAdd.c
index a3c1292..0b6ee37 100644
--- a/heclib/heclib_c/src/Public/zaliasAdd.c
+++ b/heclib/heclib_c/src/Public/zaliasAdd.c
@@ -100,6 +100,12 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 			zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, primayPathname, "");
 	}
 
+	if (!zpathnameIsComplete(aliasPathname)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasAdd_ID,
+			zdssErrorCodes.INVALID_PATHNAME, 0, 0,
+			zdssErrorSeverity.WARNING, aliasPathname, "Alias is not a pathname");
+	}
+
 	//  Lock the file if we are in a multi-user access mode
 	//  And read the file header
 	status = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
diff --git a/heclib/heclib_c/src/Public/zpathnamePartPositions.c b/heclib/heclib_c/src/Public/zpathnamePartPositions.c
index 81332b7..4c6e446 100644
--- a/heclib/heclib_c/src/Public/zpathnamePartPositions.c
+++ b/heclib/heclib_c/src/Public/zpathnamePartPositions.c
@@ -50,6 +50,27 @@
 **/
 
 
+//  Determines if a string is a complete pathname ("/A/B/C/D/E/F/") that a record can be found by
+int zpathnameIsComplete(const char *pathname)
+{
+	int i;
+	int len;
+	int numberSlashes;
+
+	len = (int)strlen(pathname);
+	while ((len > 0) && (pathname[len - 1] == ' ')) {
+		len--;
+	}
+	if ((len < 7) || (len > MAX_PATHNAME_LENGTH)) {
+		return 0;
+	}
+	numberSlashes = 0;
+	for (i=0; i<len; i++) {
+		if (pathname[i] == '/') numberSlashes++;
+	}
+	return ((numberSlashes == 7) && (pathname[0] == '/') && (pathname[len - 1] == '/'));
+}
+
 int zpathnamePartPositions (const char *pathname, size_t pathnameLen, int positions[], int dimOfPositions)
 {
 	int i;
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 8ea1ddd..c2e5a07 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -130,6 +130,12 @@ static int zrenameLocked(long long *ifltab, const char* oldPathname, const char*
 			zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, oldPathname, newPathname);
 	}
 
+	if (!zpathnameIsComplete(newPathname)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+			zdssErrorCodes.INVALID_PATHNAME, 0, 0,
+			zdssErrorSeverity.WARNING, newPathname, "New pathname is not a pathname");
+	}
+
 	//  Make a copy of the newPathname so that we can change it
 	newPath = mallocAndCopyPath(newPathname);
 	if (!newPath) {
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 0f14d61..4c7244f 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -371,6 +371,7 @@ int trimPositions(const char *string, int *start, int *end);
 char *mallocAndCopy(const char *copyFrom);
 char *mallocAndCopyTrim(const char *copyFromString);
 char *mallocAndCopyPath(const char *copyFromPath);
+int zpathnameIsComplete(const char *pathname);
 char *stringFortToC(const char *copyFrom, size_t copyFromLen);
 int copyLines(char *destination, size_t sizeOfDestination, const char *source, size_t sourceMax, int numberLines);
 int copyFile(long long *ifltab, int handleTo);
-- 
2.43.0


From 741e53519b8532de5e22f63de630e4739e501812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 137/154] fix: storing part of paired data beyond what is
 stored overwrites other curves

---
 heclib/heclib_c/src/Public/zpdStore.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 3427da2..19da85b 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -946,6 +946,19 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		numberCurves = ztransfer->internalHeader[INT_HEAD_pdNumberCurves];
 		numberValues = numberOrdinates * numberCurves;
 
+		//  The part to be written has to be within what is on disk
+		if ((pds->startingOrdinate < 0) || (pds->startingOrdinate > numberOrdinates) ||
+			(pds->startingCurve < 0) || (pds->startingCurve > numberCurves) ||
+			((pds->endingOrdinate != 0) && (pds->endingOrdinate < pds->startingOrdinate)) ||
+			((pds->endingCurve != 0) && (pds->endingCurve < pds->startingCurve))) {
+			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
+			FREE_TEMPS_AND_RESTORE
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
+				zdssErrorCodes.INVALID_NUMBER_TO_WRITE, numberValues, 0,
+				zdssErrorSeverity.WARNING, pds->pathname, "Curves or ordinates beyond those stored");
+		}
+
 		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 			zmessageDebugInt(ifltab, DSS_FUNCTION_zpdStore_ID, "Data set read, data type: ", dataType);
 			zmessageDebugInt(ifltab, DSS_FUNCTION_zpdStore_ID, "numberOrdinates: ", numberOrdinates);
-- 
2.43.0


From 25f5859bdcde71c1b23cf7cd43deaf57f7b8c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 138/154] fix: storing paired data in another precision over an
 alias removes the primary pathname

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 7 +++++++
 heclib/heclib_c/src/Public/zpdStore.c         | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index ffcf92e..f717320 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -204,6 +204,13 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			isSupported = 1;
 		}
 
+		if (type == DATA_TYPE_PD && ztransfer->dataType == DATA_TYPE_PDD) {
+			isSupported = 1;
+		}
+		if (type == DATA_TYPE_PDD && ztransfer->dataType == DATA_TYPE_PD) {
+			isSupported = 1;
+		}
+
 		if (!isSupported) {
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zwriteExisting_ID,
 				zdssErrorCodes.DIFFERENT_RECORD_TYPE, type, (long long)ztransfer->dataType,
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 19da85b..e0a58d0 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -869,7 +869,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		if (boolStoreEntire)
 		{
 			int diskType = zdataType(ifltab,pds->pathname );
-			if (diskType > 0 && diskType != dataType) // exists and not the same dataType
+			//  exists and not paired data (only the precision may change; its aliases must remain then)
+			if (diskType > 0 && diskType != DATA_TYPE_PD && diskType != DATA_TYPE_PDD)
 			{
 				zdelete(ifltab, pds->pathname);
 			}
-- 
2.43.0


From 8dc1a2d2f05ea2380b99209e191e86fb324bdf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 139/154] fix: storing a series over a record of another type
 interprets its header as one of a series

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 10 ++++++++++
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index f4c8ab3..b412c1f 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -256,6 +256,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 	int uhNumber;
 
 	int *timesRead;
+	int recordType;
+	int recordVersion;
 	int *valuesRead;
 	int *qualityRead;
 	int *notesRead;
@@ -371,6 +373,14 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 			ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
 			info = (long long *)ifltab[zdssKeys.kinfo];
 
+			//  The header of anything but a irregular series cannot be interpreted here
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &recordType, &recordVersion);
+			if ((recordType < DATA_TYPE_ITS) || (recordType >= DATA_TYPE_PD)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+										zdssErrorCodes.DIFFERENT_RECORD_TYPE, recordType, (long long)dataType,
+										zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
+
 			//  Now read internal header array
 			lengthInternalHeaderRead = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 			if (lengthInternalHeaderRead > sizeInternalHeaderRead) lengthInternalHeaderRead = sizeInternalHeaderRead;
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 6fdb86a..cf1199e 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -233,6 +233,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	int sizeInternalHeaderRead = INT_HEAD_SIZE;
 	int lengthInternalHeaderRead;
 	int boolFound;
+	int recordType;
+	int recordVersion;
 
 	int internalHeaderReadNumber;
 	int *userHeaderRead;
@@ -365,6 +367,14 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			ifltab[zdssKeys.kiftPathHash] = ifltab[zdssKeys.kpathnameHash];
 			ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];						
 
+			//  The header of anything but a regular series cannot be interpreted here
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &recordType, &recordVersion);
+			if ((recordType < DATA_TYPE_RTS) || (recordType >= DATA_TYPE_ITS)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+										zdssErrorCodes.DIFFERENT_RECORD_TYPE, recordType, (long long)dataType,
+										zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
+
 			//  Now read internal header array 
 			lengthInternalHeaderRead = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 			if (lengthInternalHeaderRead > sizeInternalHeaderRead) lengthInternalHeaderRead = sizeInternalHeaderRead;
-- 
2.43.0


From 9f4cbdd2a9830f5374f98f203af11f470b2529f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 140/154] fix: diagnostic messages of ztsIrregMergeBlocks read
 beyond the time arrays

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index 8a265e0..c467121 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -261,7 +261,9 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 			}
 			if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 				_snprintf_s(messageString, sizeof(messageString), _TRUNCATE,
-					"timeToStore %d, timesRead %d",timesToStore[icountStore], timesRead[icountRead]);
+					"timeToStore %d, timesRead %d",
+					(icountStore < numberToStore) ? timesToStore[icountStore] : UNDEFINED_TIME,
+					(icountRead < numberRead) ? timesRead[icountRead] : UNDEFINED_TIME);
 				zmessageDebug(ifltab, DSS_FUNCTION_ztsIrregMergeBlocks_ID, messageString, "");
 			}
 			//  This code requires the compiler to correctly evaluate (icountRead >= numberRead) before (timesToStore[icountStore] < timesRead[icountRead])
@@ -422,7 +424,9 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 					_snprintf_s(messageString, sizeof(messageString), _TRUNCATE,
 						"Replace; Count: %d, read: %d, toStore %d, total: %d, timeToStore %d, timesRead %d",
-						i, icountRead, icountStore, icountTotal, timesToStore[icountStore], timesRead[icountRead]);
+						i, icountRead, icountStore, icountTotal,
+						(icountStore < numberToStore) ? timesToStore[icountStore] : UNDEFINED_TIME,
+						(icountRead < numberRead) ? timesRead[icountRead] : UNDEFINED_TIME);
 					zmessageDebug(ifltab, DSS_FUNCTION_ztsIrregMergeBlocks_ID, messageString, "");
 				}
 
-- 
2.43.0


From be6951aae3aff59649265c250277478eca429706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 141/154] fix: undeleting a record whose pathname exists again
 creates a second record of that name

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index e55e0ac..15b4e17 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -119,6 +119,15 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	}
 
 
+	if (boolUndelete) {
+		//  A deleted record cannot come back when another one with the same pathname exists
+		status = zreadInfo(ifltab, pathname, REC_STATUS_VALID);
+		if (status == STATUS_RECORD_FOUND) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			return STATUS_RECORD_NOT_FOUND;
+		}
+	}
+
 	//  Force the internals to be loaded during the check
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zreadInfo(ifltab, pathname, readAction);
-- 
2.43.0


From 06365d2d36a39159a82691d142948218fe806c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 142/154] fix: copying an irregular series to a regular
 interval pathname stores fill values

---
 .../heclib_c/src/DssInterface/v6and7/zcopyRecord.c   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index 5c125f7..9c4e247 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -61,6 +61,9 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 	int lenPartsTo;
 	int vdiOverwrite = 0;
 	int elevCopy = 0;
+	int intervalSeconds;
+	int operation;
+	char ePart[MAX_PART_SIZE];
 	size_t pathnameFromLen;
 	size_t pathnameToLen;
 	zStructTimeSeries *tss;
@@ -171,6 +174,15 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 				zstructFree(tss);
 				return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
 			}
+			//  An irregular interval series cannot become a regular one, nor the reverse
+			zpathnameGetPart(pathnameTo, 5, ePart, sizeof(ePart));
+			operation = EPART_TO_SECONDS_TO_EPART;
+			status = ztsGetStandardInterval(versFileTo, &intervalSeconds, ePart, sizeof(ePart), &operation);
+			if ((status < 0) || ((status == 1) != (dataType >= DATA_TYPE_ITS))) {
+				zstructFree(tss);
+				return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyRecord_ID, zdssErrorCodes.INVALID_INTERVAL,
+					0, 0, zdssErrorSeverity.WARNING, pathnameTo, "The E part is not for this kind of time series");
+			}
 			//  Change the struct pathname to the new one
 			free(tss->pathname);
 			tss->pathname = mallocAndCopyPath(pathnameTo);
-- 
2.43.0


From 88541c90b5931598f8d9fb3bc821e804b3d511c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 143/154] fix: retrieving a series where a block holds another
 type of data reads beyond arrays

---
 heclib/heclib_c/src/Internal/ztsGetSizesInternal.c | 7 +++++++
 heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c   | 7 +++++++
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c     | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
index 176eccd..939dd5b 100644
--- a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
+++ b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
@@ -172,6 +172,13 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 					zswitchInts(internalHeader, INT_HEAD_cnotesLength + 1);
 				}
 				i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &version);
+				//  Each block has to hold a time series, and all of the same kind (regular or irregular)
+				if ((dataType < DATA_TYPE_RTS) || (dataType >= DATA_TYPE_PD) ||
+					((recordSize->dataType != 0) && ((dataType < DATA_TYPE_ITS) != (recordSize->dataType < DATA_TYPE_ITS)))) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieve_ID,
+						zdssErrorCodes.DIFFERENT_RECORD_TYPE, dataType, (long long)recordSize->dataType,
+						zdssErrorSeverity.INVALID_ARGUMENT, path, "Not the same kind of time series");
+				}
 				recordSize->dataType = dataType;
 				recordSize->version = version;
 				recordSize->numberValues +=			(int)info[zdssInfoKeys.kinfoNumberData];
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 1cdfb1a..97c57f9 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -365,6 +365,13 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 		return STATUS_RECORD_NOT_FOUND;
 	}
 
+	if ((timeSeriesRecordSizes.dataType != 0) && (timeSeriesRecordSizes.dataType < DATA_TYPE_ITS)) {
+		//  A regular interval series (by another name)
+		return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID,
+			zdssErrorCodes.DIFFERENT_RECORD_TYPE, timeSeriesRecordSizes.dataType,
+			0, zdssErrorSeverity.INVALID_ARGUMENT, tss->pathname, "");
+	}
+
 	//  Allocate space to hold all data, if this is the first time into loop
 	//  Be sure that we are on 8 byte boundaries for allocating space
 	if (isOdd(timeSeriesRecordSizes.values1Number)) timeSeriesRecordSizes.values1Number++;
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index 56333d4..b2d37bd 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -284,6 +284,13 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				if (buffer) free(buffer);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveReg_ID);
 			}
+			if (timeSeriesRecordSizes.dataType >= DATA_TYPE_ITS) {
+				//  An irregular interval series (by another name)
+				if (buffer) free(buffer);
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
+					zdssErrorCodes.DIFFERENT_RECORD_TYPE, timeSeriesRecordSizes.dataType,
+					0, zdssErrorSeverity.INVALID_ARGUMENT, tss->pathname, "");
+			}
 			if (status > 0) {
 				boolFound = 1;
 			}
-- 
2.43.0


From f71b0ca53dd7fff78e793f1c7b8174cf43ae5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 144/154] fix: a range of dates in the D part loses values of
 series with intervals of more than a day

---
 .../heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c b/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c
index 72002a9..fa9d635 100644
--- a/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c
+++ b/heclib/heclib_c/src/SemiPublic/ztsGetPathTimeWindow.c
@@ -206,8 +206,17 @@ int ztsGetPathTimeWindow(int version, char* pathname, size_t sizeofPathname, zts
 	//  Calculate the number of values to read
 	if (intervalSeconds > 0) {
 		if ((timeWindow->numberValues <= 0) || (boolEndDateGiven)) {
-			numberValues = numberPeriods(intervalSeconds, timeWindow->startJulian, intervalSeconds,
-				timeWindow->endJulian, timeWindow->endTimeSeconds) + 1;
+			//  Count from the standard times of the periods that hold the start and the end
+			int firstJulian = timeWindow->startJulian;
+			int firstSeconds = timeWindow->startTimeSeconds;
+			int lastJulian = timeWindow->endJulian;
+			int lastSeconds = timeWindow->endTimeSeconds;
+			ztsOffsetAdjustToStandard(intervalSeconds, &firstJulian, &firstSeconds);
+			if (boolEndDateGiven) {
+				ztsOffsetAdjustToStandard(intervalSeconds, &lastJulian, &lastSeconds);
+			}
+			numberValues = numberPeriods(intervalSeconds, firstJulian, firstSeconds,
+				lastJulian, lastSeconds) + 1;
 			timeWindow->numberValues = numberValues;
 		}
 		else {
-- 
2.43.0


From 50c270a242dbc8092a929270d51638afa17c17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:51 +0000
Subject: [PATCH 145/154] fix: squeezing in place truncates the file at data
 with the value of the end of file flag

---
 heclib/heclib_c/src/Internal/copyFile.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 308d84d..322377d 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -45,7 +45,6 @@ int copyFile(long long *ifltab, int handleTo)
 	int numberReads;
 	int numberInts;
 	int i;
-	int j;
 	long long iaddress;
 	static int isize = 32768;
 	long long space[32768];
@@ -65,12 +64,9 @@ int copyFile(long long *ifltab, int handleTo)
 		}
 		if (handleTo > 0) {
 			if ((i+1) == numberReads) {
-				for (j=0; j<isize; j++) {
-					if (space[j] == DSS_END_FILE_FLAG) {
-						numberInts = (j + 1) * 2;
-						break;
-					}
-				}
+				//  The last word is the end of file flag, at address file size
+				//  (don't search for it, as data may have the same value)
+				numberInts = (int)(fileHeader[zdssFileKeys.kfileSize] - iaddress + 1) * 2;
 			}
 			istat = zwriteDisk (handleTo, 0, iaddress, space, numberInts);
 			if (istat) {
-- 
2.43.0


From e001d0d3246f66a943666d302ab1b8cbc497b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:58 +0000
Subject: [PATCH 146/154] fix: data that look like a record (e.g., a DSS file
 stored in a DSS file) are copied as records by squeeze and copy file, and
 fail the link check

---
 heclib/heclib_c/src/Public/zcopyFile.c       | 163 ++++++++++++++++---
 heclib/heclib_c/src/SemiPublic/zcheckLinks.c |  70 ++++++--
 2 files changed, 196 insertions(+), 37 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index d47d528..a589b44 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -60,6 +60,79 @@
 *
 **/
 
+//  Copy the record whose info block is at infoAddress
+static int copyRecordAt(long long *ifltabFrom, long long *ifltabTo, long long infoAddress, int pathLength)
+{
+	int status;
+	int numberInfo;
+	long long *info;
+	char pathname[MAX_PATHNAME_LENGTH];
+
+	numberInfo = zdssVals.infoSize + numberLongsInBytes(pathLength);
+	if (numberInfo > zdssVals.maxInfoSize) {
+		numberInfo = zdssVals.maxInfoSize;
+	}
+	status = zget(ifltabFrom, infoAddress, (int *)ifltabFrom[zdssKeys.kinfo], numberInfo, 2);
+	if (zisError(status)) {
+		return status;
+	}
+	ifltabFrom[zdssKeys.kaddInfoLastPath] = infoAddress;
+	ifltabFrom[zdssKeys.kinfoAddress] = ifltabFrom[zdssKeys.kaddInfoLastPath];
+	ifltabFrom[zdssKeys.kinfoSize] = numberInfo;
+	info = (long long *)ifltabFrom[zdssKeys.kinfo];
+	charInt((void *)&info[zdssInfoKeys.kinfoPathname], pathname, pathLength, sizeof(pathname), 0, 1, 0);
+	pathname[pathLength] = '\0';
+
+	if (zgetVersion(ifltabTo) == 7) {
+		return zcopyRecordInternal(ifltabFrom, ifltabTo, pathname, 0);
+	}
+	return zcopyRecord(ifltabFrom, ifltabTo, pathname, pathname);
+}
+
+//  Is the info block at infoAddress the one that the file has for its pathname?
+//  Returns STATUS_RECORD_FOUND if so, STATUS_RECORD_NOT_FOUND if the file does not have that pathname
+//  (or it cannot be looked up), STATUS_OTHER_BLOCK if the file has it at a different address, or an error code.
+#define STATUS_OTHER_BLOCK	2
+static int lookupRecordAt(long long *ifltab, long long infoAddress, int pathLength)
+{
+	int status;
+	int numberInfo;
+	long long *info;
+	char pathname[MAX_PATHNAME_LENGTH];
+
+	numberInfo = zdssVals.infoSize + numberLongsInBytes(pathLength);
+	if (numberInfo > zdssVals.maxInfoSize) {
+		numberInfo = zdssVals.maxInfoSize;
+	}
+	info = (long long *)calloc((size_t)numberInfo + 1, LONG_SIZE);
+	if (!info) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zcopyFile_ID,
+			zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+			zdssErrorSeverity.MEMORY_ERROR, "", "Allocating info block");
+	}
+	status = zget(ifltab, infoAddress, (int *)info, numberInfo, 2);
+	if (zisError(status)) {
+		free(info);
+		return status;
+	}
+	charInt((void *)&info[zdssInfoKeys.kinfoPathname], pathname, pathLength, sizeof(pathname), 0, 1, 0);
+	pathname[pathLength] = '\0';
+	free(info);
+
+	if (strlen(pathname) == 0) {
+		return STATUS_RECORD_NOT_FOUND;
+	}
+	status = zcheck(ifltab, pathname);
+	if (status == STATUS_RECORD_FOUND) {
+		return (ifltab[zdssKeys.kaddInfoLastPath] == infoAddress) ? STATUS_RECORD_FOUND : STATUS_OTHER_BLOCK;
+	}
+	if (status != STATUS_RECORD_NOT_FOUND) {
+		//  The tables that lead to the pathname are damaged
+		zerrorStructClear();
+	}
+	return STATUS_RECORD_NOT_FOUND;
+}
+
 //  Add the aliases of one file to the same records in another (unless the name is used there)
 static int copyAliases(long long *ifltabFrom, long long *ifltabTo)
 {
@@ -100,16 +173,18 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	int status;
 	int i;
 	int count;
-	long long *info;
 	long long infoAddress;
 	long long address;
 	long long fileSize;
 	long long *fileHeader;
-	int numberInfo;
+	int numberMatched;
+	int numberUnmatched;
+	int sizeUnmatched;
 	int readSize;
 	long long fileBuff[FILE_BUFF_SIZE];
 	long long recHeader[3];
-	char pathname[MAX_PATHNAME_LENGTH];
+	long long *unmatched;
+	long long *temp;
 	int pathLength;
 	char fullFilename[256];
 
@@ -167,6 +242,10 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 
 
 	count = 0;
+	numberMatched = 0;
+	numberUnmatched = 0;
+	sizeUnmatched = 0;
+	unmatched = 0;
 	address = 0;
 	zprogress.handle = zhandle(ifltabFrom);
 	//  Brute force through the file, ignoring hash, addresses, etc.
@@ -178,6 +257,7 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 		}
 		status = zget(ifltabFrom, address, (int *)fileBuff, readSize, 2);
 		if (zisError(status)) {
+			free(unmatched);
 			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
 		}
 		for (i=0; i<readSize; i++) {
@@ -191,42 +271,60 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 				}
 				else {
 					infoAddress = address + (long long)i;
+					if ((infoAddress + 3) > fileSize) {
+						//  No room for a record here
+						break;
+					}
 					status = zget(ifltabFrom, infoAddress, (void *)recHeader, 3, 2);
 					if (zisError(status)) {
+						free(unmatched);
 						return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
 					}
 				}
 				pathLength = (int)recHeader[zdssInfoKeys.kinfoPathnameLength];
 				//  Check for a valid pathname length
-				if ((pathLength > 0) && (pathLength < MAX_PATHNAME_LENGTH)) {
+				if ((pathLength > 0) && (pathLength < MAX_PATHNAME_LENGTH) &&
+					((address + (long long)i + zdssVals.infoSize + numberLongsInBytes(pathLength)) <= fileSize)) {
 					//  Check the status flag
 					//  Be sure this was not deleted or renamed....
 					if (zcompareRecordStatus((int)recHeader[zdssInfoKeys.kinfoStatus], statusWanted)) {
-						//  Good - copy the record
 						infoAddress = address + (long long)i;
-						numberInfo = zdssVals.infoSize + numberLongsInBytes(pathLength);
-						if (numberInfo > zdssVals.maxInfoSize) {
-							numberInfo = zdssVals.maxInfoSize;
-						}
-						status = zget(ifltabFrom, infoAddress, (int *)ifltabFrom[zdssKeys.kinfo], numberInfo, 2);
-						if (zisError(status)) {
-							return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
-						}
-						ifltabFrom[zdssKeys.kaddInfoLastPath] = infoAddress;
-						ifltabFrom[zdssKeys.kinfoAddress] = ifltabFrom[zdssKeys.kaddInfoLastPath];
-						ifltabFrom[zdssKeys.kinfoSize] = numberInfo;
-						info = (long long *)ifltabFrom[zdssKeys.kinfo];
-						charInt((void *)&info[zdssInfoKeys.kinfoPathname], pathname, pathLength, sizeof(pathname), 0, 1, 0);
-						pathname[pathLength] = '\0';
-
-						if (zgetVersion(ifltabTo) == 7) {
-							status = zcopyRecordInternal(ifltabFrom, ifltabTo, pathname, 0);
-						}
-						else {
-							status = zcopyRecord(ifltabFrom, ifltabTo, pathname, pathname);
+
+						//  The data of a record (e.g., a stored DSS file) can look just like an info block.
+						//  Unless the file is damaged, the info blocks of all primaries can be found by name.
+						if (zcompareRecordStatus((int)recHeader[zdssInfoKeys.kinfoStatus], REC_STATUS_VALID)) {
+							status = lookupRecordAt(ifltabFrom, infoAddress, pathLength);
+							if (zisError(status)) {
+								free(unmatched);
+								return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
+							}
+							if (status == STATUS_OTHER_BLOCK) {
+								continue;
+							}
+							if (status == STATUS_RECORD_NOT_FOUND) {
+								//  Keep in case the file is damaged
+								if (numberUnmatched + 2 > sizeUnmatched) {
+									sizeUnmatched = (2 * sizeUnmatched) + 64;
+									temp = (long long *)realloc(unmatched, (size_t)sizeUnmatched * LONG_SIZE);
+									if (!temp) {
+										free(unmatched);
+										return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyFile_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sizeUnmatched, 0,
+											zdssErrorSeverity.MEMORY_ERROR, "", "Allocating list of addresses");
+									}
+									unmatched = temp;
+								}
+								unmatched[numberUnmatched++] = infoAddress;
+								unmatched[numberUnmatched++] = (long long)pathLength;
+								continue;
+							}
+							numberMatched++;
 						}
 
+						//  Good - copy the record
+						status = copyRecordAt(ifltabFrom, ifltabTo, infoAddress, pathLength);
 						if (zisError(status)) {
+							free(unmatched);
 							return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
 						}
 
@@ -240,6 +338,21 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 		address += readSize;
 	}
 
+	//  If there are records that could not be found by name, then the tables of
+	//  the file are damaged.  Recover whatever looks like a record.
+	if (numberMatched < (int)fileHeader[zdssFileKeys.knumberRecords]) {
+		for (i=0; i<numberUnmatched; i+=2) {
+			status = copyRecordAt(ifltabFrom, ifltabTo, unmatched[i], (int)unmatched[i+1]);
+			if (zisError(status)) {
+				free(unmatched);
+				return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyFile_ID);
+			}
+			count++;
+			zprogress.currentNumber = count;
+		}
+	}
+	free(unmatched);
+
 	//  Aliases are only names in the pathname bins; now that all primaries are there, add them
 	if ((zgetVersion(ifltabTo) == 7) && (statusWanted == REC_STATUS_VALID) && (fileHeader[zdssFileKeys.knumberAliases] > 0)) {
 		status = copyAliases(ifltabFrom, ifltabTo);
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckLinks.c b/heclib/heclib_c/src/SemiPublic/zcheckLinks.c
index 61f0642..df48e1d 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckLinks.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckLinks.c
@@ -36,7 +36,9 @@
 *
 **/
 
-int zcheckLinks(long long *ifltab)
+//  Scan the file for records; returns the number that could not be found by their pathname.
+//  If boolReport is false, only count (numberFound is the number found).
+static int scanLinks(long long *ifltab, int boolReport, int *numberOfFound)
 {
 	int i;
 	int pathLen;
@@ -59,15 +61,6 @@ int zcheckLinks(long long *ifltab)
 	char pathname[MAX_PATHNAME_LENGTH];
 
 
-	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-		zmessageDebugInt(ifltab, DSS_FUNCTION_zcheckLinks_ID, "Enter, Handle: ", zhandle(ifltab));
-	}
-
-	status = zcheckKeys(ifltab);
-	if (zisError(status)) {
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcheckLinks_ID);
-	}
-
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 
 	numberNotFound = 0;
@@ -97,13 +90,18 @@ int zcheckLinks(long long *ifltab)
 				}
 				else {
 					infoAddress = address + (long long)i + 1;
+					if ((infoAddress + 2) > fileSize) {
+						//  No room for a record here
+						break;
+					}
 					status = zget(ifltab, infoAddress, (int *)recHeader, 2, 2);
 					if (status != 0) {
 						return status;
 					}
 				}
 				//  Check for a valid pathname length
-				if ((recHeader[1] > 0) && (recHeader[1] < MAX_PATHNAME_LENGTH)) {
+				if ((recHeader[1] > 0) && (recHeader[1] < MAX_PATHNAME_LENGTH) &&
+					((address + (long long)i + zdssVals.infoSize + numberLongsInBytes((int)recHeader[1])) <= fileSize)) {
 					//  Check the status flag
 					//  Be sure this was not deleted or renamed....
 					if ((recHeader[0] == REC_STATUS_PRIMARY) || (recHeader[0] == REC_STATUS_VALID)){
@@ -119,7 +117,11 @@ int zcheckLinks(long long *ifltab)
 						//  Now double check that it exists
 						status = zreadInfoBlock(ifltab, pathname, 0, info2, sizeof(info2), &numberInfo2);
 						if (zisError(status)) {
-							return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcheckLinks_ID);
+							if (boolReport) {
+								return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcheckLinks_ID);
+							}
+							zerrorStructClear();
+							continue;
 						}
 						icase = 0;
 						if (status == STATUS_RECORD_FOUND) {
@@ -134,6 +136,13 @@ int zcheckLinks(long long *ifltab)
 							}
 						}
 						if (status == STATUS_RECORD_NOT_FOUND) {
+							if (!boolReport) {
+								//  Data that happens to look like a record, or a record that was left behind?
+								if (info1[zdssInfoKeys.kinfoInternalHeadAddress] == (infoAddress + (long long)numberInfo1)) {
+									numberNotFound++;
+								}
+								continue;
+							}
 							if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_GENERAL)) {
 								_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %lld, info address2 %lld",
 									infoAddress, ifltab[zdssKeys.kaddInfoLastPath]);
@@ -155,6 +164,10 @@ int zcheckLinks(long long *ifltab)
 						}
 						else {
 							numberFound++;
+							*numberOfFound = numberFound;
+							if (!boolReport) {
+								continue;
+							}
 							zprogress.currentNumber = numberFound;
 							zprogress.handle = zhandle(ifltab);
 							if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
@@ -167,6 +180,39 @@ int zcheckLinks(long long *ifltab)
 		}
 		address += readSize;
 	}
+	return numberNotFound;
+}
+
+int zcheckLinks(long long *ifltab)
+{
+	int numberNotFound;
+	int numberFound;
+	int status;
+	long long *fileHeader;
+
+
+	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
+		zmessageDebugInt(ifltab, DSS_FUNCTION_zcheckLinks_ID, "Enter, Handle: ", zhandle(ifltab));
+	}
+
+	status = zcheckKeys(ifltab);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcheckLinks_ID);
+	}
+
+	//  The data of a record (e.g., a stored DSS file) can look just like a record.  When each of the
+	//  records of the file is found, then anything else that looks like one is only data.
+	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
+	numberFound = 0;
+	numberNotFound = scanLinks(ifltab, 0, &numberFound);
+	if ((numberNotFound > 0) || (numberFound < (int)fileHeader[zdssFileKeys.knumberRecords])) {
+		numberFound = 0;
+		numberNotFound = scanLinks(ifltab, 1, &numberFound);
+	}
+	if (zisError(numberNotFound) || zprogress.interrupt) {
+		return numberNotFound;
+	}
+
 	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_GENERAL)) {
 		if (numberNotFound == 0) {
 			zmessage(ifltab, "zcheckLinks check passed with no errors");
-- 
2.43.0


From c1d5497c1a4e634fb8bc0ce42236752985b0128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:13 +0000
Subject: [PATCH 147/154] fix: storing a binary file that cannot be read leaves
 it open and leaks memory

---
 .../heclib_c/src/Public/zbinaryStoreFromFile.c  | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
index 37efa32..591b132 100644
--- a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
@@ -80,6 +80,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	numberCharacters = zfileSize(ihandle);
 	if (numberCharacters <= 0) {
 		perror("Read status");
+		closeFile(ihandle);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 			zdssErrorCodes.UNABLE_TO_ACCESS_FILE, 0, 0,
 			zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -88,6 +89,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 
 	transferStruct = zstructTransferNew(pathname, 0);
 	if (!transferStruct) {
+		closeFile(ihandle);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
@@ -101,9 +103,22 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 
 	transferStruct->values1 = (int *)malloc((size_t)transferStruct->values1Number * 4);
 
+	if (!transferStruct->values1) {
+		closeFile(ihandle);
+		zstructFree(transferStruct);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
+								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+								zdssErrorSeverity.MEMORY_ERROR,
+								pathname, "Allocating values");
+	}
+
 	status = readBytes(ihandle, (char *)transferStruct->values1, transferStruct->logicalNumberValues);
 	if (status < 0) {
 		perror("Read status");
+		closeFile(ihandle);
+		free(transferStruct->values1);
+		transferStruct->values1 = (int *)0;
+		zstructFree(transferStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 								zdssErrorCodes.UNABLE_TO_ACCESS_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -116,6 +131,8 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	if (zisError(status)) {
 		//  An error code
 		status = zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinaryStore_ID);
+		free(transferStruct->values1);
+		transferStruct->values1 = (int *)0;
 		zstructFree(transferStruct);
 		return status;
 	}
-- 
2.43.0


From ccf07f1c33a247631d46c7a37077d841c19727c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:39 +0000
Subject: [PATCH 148/154] fix: longWithCommas writes past its buffer for
 negative numbers and truncates instead of returning -1

---
 heclib/heclib_c/src/Utilities/longWithCommas.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/longWithCommas.c b/heclib/heclib_c/src/Utilities/longWithCommas.c
index f21cf01..71f1ddb 100644
--- a/heclib/heclib_c/src/Utilities/longWithCommas.c
+++ b/heclib/heclib_c/src/Utilities/longWithCommas.c
@@ -28,7 +28,9 @@
 
 int longWithCommas(char *str, size_t strSize, long long number)
 {
+	char digits[30];
 	char temp[30];
+	unsigned long long magnitude;
 	int i;
 	int count;
 	int ipos;
@@ -37,34 +39,33 @@ int longWithCommas(char *str, size_t strSize, long long number)
 
 	if (number < 0) {
 		boolNegative = 1;
-		number = -number;
+		magnitude = 0ULL - (unsigned long long)number;
 	}
 	else {
 		boolNegative = 0;
+		magnitude = (unsigned long long)number;
 	}
 
-	_snprintf_s(str, strSize, _TRUNCATE, "%lld", number);
-	len = strlen(str);
+	_snprintf_s(digits, sizeof(digits), _TRUNCATE, "%llu", magnitude);
+	len = strlen(digits);
 	count = 0;
 	ipos = 0;
 	for (i=(int)(len-1); i>=0; i--) {
-		temp[count++] = str[i];
-		if (count == strSize) return -1;
+		temp[count++] = digits[i];
 		ipos++;
 		if ((ipos == 3) && (i != 0)) {
 			temp[count++] = ',';
 			ipos = 0;
-			if (count == strSize) return -1;
 		}
 	}
 
 	//  Now it has commas, but is inversed.  Right side it.
-	if (boolNegative) count++;
+	if (boolNegative) temp[count++] = '-';
+	if ((size_t)count >= strSize) return -1;
 	ipos = 0;
 	for (i=(count-1); i>=0; i--) {
 		str[i] = temp[ipos++];
 	}
-	if (boolNegative) str[0] = '-';
 	str[count] = '\0';
 	return count;
 }
-- 
2.43.0


From c63a118d750472f001992d029f8412308f032ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:42 +0000
Subject: [PATCH 149/154] fix: an interrupted alias removal leaves the record's
 other aliases leading through a deleted one

---
 heclib/heclib_c/src/Public/zaliasRemove.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index 54695f5..8a0717b 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -224,7 +224,16 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 				}
 				if (address == aliasAddress) {
 					//  found our alias bin
-					//  First store the status flag as deleted
+					//  First save the next info address in the previous alias bin, so that
+					//  the other aliases do not lead through a deleted one
+					infoAddressInBin = binAlias[zdssBinKeys.kbinInfoAdd];
+					lastAliasAddress += zdssBinKeys.kbinInfoAdd;
+					status = zput(ifltab, lastAliasAddress, (int *)&infoAddressInBin, 1, 2);
+					if (zisError(status)) {
+						zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
+					}
+					//  Then store the status flag as deleted
 					longStatus = (long long)REC_STATUS_ALIAS_DELETED;
 					address = aliasAddress + zdssBinKeys.kbinStatus;
 					status = zput(ifltab, address, (int *)&longStatus, 1, 2);
@@ -249,14 +258,6 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 						zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 					}
-					//  Now save the next info address in the previous alias bin
-					infoAddressInBin = binAlias[zdssBinKeys.kbinInfoAdd];
-					lastAliasAddress += zdssBinKeys.kbinInfoAdd;
-					status = zput(ifltab, lastAliasAddress, (int *)&infoAddressInBin, 1, 2);
-					if (zisError(status)) {
-						zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
-						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
-					}
 					break;
 				}
 				else {
-- 
2.43.0


From 85b7363bcabae90987fe99a39dc8f5a191337ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:35 +0000
Subject: [PATCH 150/154] fix: a write with exclusive access carries on without
 the lock when others have the file open, and loses their updates

---
 heclib/heclib_c/src/Internal/zlockActive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index 85ca3d8..90c7c21 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -250,7 +250,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					status = zlockPassive(ifltab, LOCKING_LOCK_TEST, LOCKING_ACCESS_READ);
 					if (status != 0) {
 						return zerrorProcessing(ifltab, DSS_FUNCTION_zlocking_ID, zdssErrorCodes.CANNOT_LOCK_EXCLUSIVE,
-										 0, 0, zdssErrorSeverity.WARNING, "", "");
+										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", "");
 					}
 					status = zlockDss(ifltab, handle, 2, fileHeader[zdssFileKeys.klockAddressWord], 16);
 					if (status != 0) {
-- 
2.43.0


From 24da41ad53e2db4ed63422a3c0e7ba4d88de4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:35 +0000
Subject: [PATCH 151/154] fix: a file that another process is using is squeezed
 although the squeeze is to be refused

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 63879b7..d679046 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -134,7 +134,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	if (version > 70300) {
 		status = zlockPassive(ifltab, LOCKING_LOCK_TEST, LOCKING_ACCESS_READ);
 		//  If status > 0, another process is accessing file and we cannot squeeze it
-		if (zisError(status)) {
+		if ((status > 0) || zisError(status)) {
 			//  Cannot get exclusive access
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 				status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
-- 
2.43.0


From 832d726a2aabd2605b808b019dc4d09ef9cb8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:20 +0000
Subject: [PATCH 152/154] fix: a process that opened the file for reading only
 is not seen by those who want exclusive access, so the file is squeezed under
 it

---
 heclib/heclib_c/src/System/zlockdss.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/System/zlockdss.c b/heclib/heclib_c/src/System/zlockdss.c
index 6af1524..bd3ba51 100644
--- a/heclib/heclib_c/src/System/zlockdss.c
+++ b/heclib/heclib_c/src/System/zlockdss.c
@@ -171,6 +171,8 @@ int zlockDss (long long *ifltab, int ihandle, int mode, long long wordAddress, i
 
 #include <unistd.h>
 #include <stdint.h>
+#include <fcntl.h>
+#include <errno.h>
 
 void testLock(long long* ifltab, int ihandle)
 {
@@ -202,6 +204,7 @@ int zlockDss(long long *ifltab, int ihandle, int mode, long long wordAddress, in
 	int status;
 	char messageString[90];
 	int boolDEBUG = 0;
+	struct flock lockInfo = { 0 };
 
 
 	address = wordAddress * 8;
@@ -212,6 +215,9 @@ int zlockDss(long long *ifltab, int ihandle, int mode, long long wordAddress, in
 	}
 
 	numberBytes = (long)nbytes;
+	lockInfo.l_whence = SEEK_SET;
+	lockInfo.l_start = (off_t)address;
+	lockInfo.l_len = (off_t)numberBytes;
 
 	/*   Unlock the record */
 	if (mode == 0) {
@@ -235,10 +241,20 @@ int zlockDss(long long *ifltab, int ihandle, int mode, long long wordAddress, in
 	/*   Lock the record.  If already locked, return with status != 0 */
 	else if (mode == 2) {
 		status = lockf(ihandle, F_TLOCK, numberBytes);
+		if (status && (errno == EBADF)) {
+			//  A file opened for reading only can just have a shared lock
+			lockInfo.l_type = F_RDLCK;
+			status = fcntl(ihandle, F_SETLK, &lockInfo);
+		}
 	}
 	/*   Test to see if the record is already locked (but do not lock!) */
 	else if (mode == 3) {
-		status = lockf(ihandle, F_TEST, numberBytes);
+		//  (lockf does not see the shared locks of those that only read)
+		lockInfo.l_type = F_WRLCK;
+		status = fcntl(ihandle, F_GETLK, &lockInfo);
+		if (!status && (lockInfo.l_type != F_UNLCK)) {
+			status = STATUS_NOT_OKAY;
+		}
 	}
 
 	if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-- 
2.43.0


From af86aa9205b9f9eb3b55ac3046196c7656e32c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:52 +0000
Subject: [PATCH 153/154] fix: a file that is open for reading only, or not
 writable, is replaced by a squeeze

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index d679046..2c0bf6c 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -127,6 +127,12 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zsqueeze_ID, "boolInPlace: ", boolInPlace);
 	}
 
+	//  A squeeze replaces the file, which must not be done without write access
+	if (ifltab[zdssKeys.kopenStatus] == OPEN_STAT_READ_ONLY) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.WRITE_ON_READ_ONLY,
+			0, 0, zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", "");
+	}
+
 	//  First, let's determine if this file can be squeezed?
 	//  Is someone else accessing the file?
 	//  The following takes care of a lock structure change in test versions.
-- 
2.43.0


From 3fc068a8f5bb047eb763dfe316610708c990f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:52 +0000
Subject: [PATCH 154/154] fix: the type of a location record is inquired as
 that of the record accessed before it

---
 heclib/heclib_c/src/Public/zinquireChar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zinquireChar.c b/heclib/heclib_c/src/Public/zinquireChar.c
index da8a3f6..5fe77ab 100644
--- a/heclib/heclib_c/src/Public/zinquireChar.c
+++ b/heclib/heclib_c/src/Public/zinquireChar.c
@@ -123,7 +123,8 @@ int zinquireChar(long long *ifltab, const char *request, char *creturn, size_t c
 		if (boolPathIncreturn) {
 			status = zcheckInternal(ifltab, (const char*)creturn, 0);
 			if (status == STATUS_OKAY) {
-				number[0] = (int)ifltab[zdssKeys.klastType];
+				//  (klastType is not updated for every kind of record)
+				i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], number, &dummy);
 			}
 			else {
 				number[0] = status;
-- 
2.43.0

