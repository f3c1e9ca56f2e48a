#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
R="heclib/heclib_c/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[R+f if not f.startswith("heclib/") else f for f in files],
        mechanism=[dict(name=a,where=R+b if not b.startswith("heclib/") else b) for a,b in mech],
        observe_at=observe,hook_needed=None)))

p("C01","A DSS file behaves as a case-insensitive map from pathname to record",
"After any history of writes, over-writes with different sizes, deletes, undeletes, renames, duplicates, copies, closes and reopens on a file, reading a pathname returns exactly the record most recently written under that pathname (compared without regard to letter case), byte for byte in every data array and header, and a pathname that was never written, or was deleted or renamed away, is reported as not found. No operation on one pathname changes what any other pathname reads.",
["histories","configurations"],
"all sequences of write/read/delete/undelete/rename/duplicate/close/reopen over colliding and non-colliding pathnames, record sizes and file hash/bin configurations",
"Tests write a few fixed records in a fixed order; they never drive hash collisions, bin-block chaining, size-changing over-writes and reopens in combination, nor compare every other record after each step.",
["Internal/zwriteInternal.c","Internal/zwriteNew.c","Internal/zwriteExisting.c","Internal/zreadInternal.c","Internal/zdeleteInternal.c","Internal/zbinNew.c","Internal/zbinUpdate.c","Internal/zhash.c","Internal/zcheckInternal.c","Public/zrename.c","Public/zduplicateRecord.c","DssInterface/v6and7/zundelete.c"],
[("hash table + pathname bins locate records","Internal/zcheckInternal.c"),("in-place over-write when the new record fits, else relocation","Internal/zwriteExisting.c"),("address allocation","Internal/zgetFileSpace.c")],
["return status and arrays of zread/zwrite/zcheck"])

p("C02","Every reachable file is structurally sound and its counts agree",
"After any history of operations, and after closing and reopening, the library's own file checks (links, hash table, pathnames, pathname bins) report no error, and the record count, the catalogue and the set of readable pathnames all describe the same set of records. Each live pathname is listed exactly once with its own record type.",
["histories","configurations"],
"all histories of storing, over-writing, deleting, undeleting, renaming, aliasing and squeezing records of any type, for all hash table and bin sizes",
"Tests run the file checks on a handful of files produced by fixed scripts; the links depend on the whole history (bin overflow, deleted entries, relocations).",
["SemiPublic/zcheckLinks.c","SemiPublic/zcheckHashTable.c","SemiPublic/zcheckPathnames.c","SemiPublic/zcheckPathnameBins.c","Public/zcheckFile.c","Public/zcatalog.c","Internal/zbinNew.c","Internal/zcatalogInternal.c"],
[("pathname bins and hash table maintained on each write/delete","Internal/zbinUpdate.c"),("file header counters","Internal/zwriteNew.c")],
["zcheckFile family results, zcatalog entries, record count"])

p("C03","Regular time series: retrieval equals the merge of all stores",
"For a regular-interval series of any supported interval (and one interval offset per series), retrieving any time window returns for every interval time in it the value left by the sequence of stores to that path under the documented store flag of each (replace all, replace only missing, write all-missing blocks, delete all-missing blocks, never replace valid with missing), and missing for times never stored. This holds however the stores and the window fall across the internal record blocks, whether the data are float or double, and whether the time of each returned value is given by start time and interval or by the returned time array.",
["inputs","histories"],
"all intervals (1 second to 1 year, decade and century blocks), offsets, start times, lengths, store flags, precisions, missing patterns and retrieval windows, in every order of overlapping stores",
"Tests store one or two series with a chosen interval and read back the same window; block-boundary, partial-block, compression and flag interactions are not enumerated.",
["Internal/ztsStoreReg7.c","Internal/ztsRegStoreBlock.c","Internal/ztsRegReadBlock.c","Internal/ztsRetrieveReg7.c","Internal/ztsRegGetBlockStart.c","Internal/ztsIncrementBlock.c","Internal/ztsRegRepeatCompress.c","Internal/ztsTrim.c","Public/ztsOffset.c","Internal/ztsProcessTimes.c"],
[("split of a series into fixed blocks and merge per store flag","Internal/ztsRegStoreBlock.c"),("assembly of blocks into the requested window","Internal/ztsRetrieveReg7.c")],
["ztsRetrieve values, times, numberValues"])

p("C04","Irregular time series: retrieval equals the merge of all stores",
"For an irregular-interval series with any block size, retrieving a window returns in strictly increasing time order exactly the values whose times lie in the window, where a merge store overlays the stored values by time and a replace store first removes everything between the first and last stored times. The previous/next-value retrieval options add exactly the nearest value before and/or after the window, and times are exact to one second across any number of blocks (to one minute for century blocks).",
["inputs","histories"],
"all block sizes, time sets, base dates, granularities, store flags, precisions, windows and retrieval flags, in every order of overlapping stores",
"Tests store a couple of fixed irregular series; merges that straddle blocks, insertions before/after/inside, and empty blocks are not enumerated.",
["Internal/ztsStoreIrreg7.c","Internal/ztsIrregStoreBlock.c","Internal/ztsIrregMergeBlocks.c","Internal/ztsIrregReadBlock.c","Internal/ztsRetrieveIrreg7.c","Internal/ztsIrregGetBlockStart.c","Internal/ztsProcessTimes.c"],
[("merge or replace within one block","Internal/ztsIrregMergeBlocks.c"),("block walk and window extraction","Internal/ztsRetrieveIrreg7.c")],
["ztsRetrieve values, times, numberValues"])

p("C05","Time-series attributes travel with their values",
"Units, type, precision, time zone, user header, per-value quality flags (of any element size) and per-value text or integer notes stored with a regular or irregular series are returned unchanged, each quality entry and note attached to the same time as the value it was stored with. Later stores that overlap only part of the series change the attributes of only the overlapped times. Storing a clone of a series structure is the same as storing the structure.",
["inputs","histories"],
"all combinations of attributes, element sizes, string lengths, note lengths and overlapping stores, regular and irregular",
"Tests store one series with fixed quality and notes and read back the same window; partial overlap, block crossing and absent/present attribute combinations are not covered.",
["Internal/ztsRegStoreBlock.c","Internal/ztsIrregStoreBlock.c","Internal/ztsIrregMergeBlocks.c","Internal/ztsRetrieveReg7.c","Internal/ztsRetrieveIrreg7.c","Internal/ztsInternalHeaderPack.c","Internal/ztsInternalHeaderUnpack.c","Public/zstructTsNew.c","Utilities/copyLines.c"],
[("internal header pack/unpack","Internal/ztsInternalHeaderPack.c"),("quality and note merge","Internal/ztsIrregMergeBlocks.c")],
["ztsRetrieve quality, inotes, cnotes, units, type, timeZoneName, userHeader"])

p("C06","Paired data round trip, including curve subsets and per-curve updates",
"Paired data stored as float or double with any number of ordinates, curves, labels and header fields is returned unchanged in full or for any sub-range of ordinates or curves, converted on request to the other precision. Storing single curves into an existing (pre-allocated) record changes exactly those curves and ordinates and nothing else.",
["inputs","histories"],
"all ordinate/curve counts, label lengths, precisions, sub-ranges and sequences of per-curve updates",
"Tests read back a few fixed tables; sub-range indexing and per-curve updates of both precisions are sampled once each.",
["Public/zpdStore.c","Public/zpdRetrieve.c","Internal/zpdUnitsToHead.c","Public/zstructPdNew.c"],
[("curve addressing inside the value array","Public/zpdStore.c"),("sub-range extraction","Public/zpdRetrieve.c")],
["zpdRetrieve arrays, units, labels"])

p("C07","Text and array records round trip exactly",
"Text strings, text tables with column labels, and records of integer, float and double arrays of any length (including empty parts), and files kept as text or binary records, are returned exactly as stored, over-writing with a longer or shorter record included. Elements of a text table stay in their row and column.",
["inputs","histories"],
"all string contents and lengths, table shapes, label sets and array lengths, in sequences of over-writes",
"Tests store two or three fixed strings and arrays; odd lengths, empty cells, embedded empties and over-writes of different sizes are not enumerated.",
["Public/ztextStore.c","Public/ztextRetrieve.c","Public/zarrayStore.c","Public/zarrayRetrieve.c","Public/zstructTextNew.c","Utilities/numberBytesInCharArray.c","Internal/charInt.c"],
[("packing of characters into words","Internal/charInt.c"),("array sections of a record","Public/zarrayStore.c")],
["ztextRetrieve, zarrayRetrieve outputs"])

p("C08","Grids and TINs round trip exactly",
"A spatial grid of any type, shape and cell values is returned with every cell bit-identical and every metadata field unchanged, whichever compression is used, and its reported statistics are those stored. A stored TIN is returned with every point, connection, triangle and label unchanged.",
["inputs","histories"],
"all grid types and shapes (including single cell, no data, all-null), cell values, metadata strings and range tables; all TIN sizes",
"Tests store two small grids and compare; value distributions that stress compression and header layout are not sampled.",
["Public/zspatialGridStore.c","Public/zspatialGridRetrieve.c","Public/zlibcompress.c","Public/zspatialTinStore.c","Public/zspatialTinRetrieve.c","Public/zstructSpatialGridNew.c"],
[("zlib compression of cells","Public/zlibcompress.c"),("header packing","Public/zspatialGridStore.c")],
["zspatialGridRetrieve, zspatialTinRetrieve, hec_dss_gridRetrieve outputs"])

p("C09","Location information belongs to the location, not to one record",
"Location data stored with any data set is returned for every data set that shares the same location pathname parts, and only for those, until replaced or deleted. A store that asks not to replace leaves existing location information unchanged.",
["inputs","histories"],
"all coordinate values, systems, supplemental strings and sequences of location stores, replaces and deletes over paths that share or differ in location parts and data type",
"Tests store one location and read it back through the same path.",
["Public/zlocationStore.c","Public/zlocationRetrieve.c","Public/zlocationPath.c","Public/zlocationDelete.c"],
[("derivation of the location pathname","Public/zlocationPath.c")],
["zlocationRetrieve, hec_dss_locationRetrieve outputs"])

p("C10","Calendar and clock conversions are exact and mutually inverse",
"Conversions between julian day numbers, year/month/day and every supported date string style, and between seconds or minutes past midnight and time strings, agree with the proleptic Gregorian calendar and are inverse to one another over the whole supported range. Unparseable dates and times are reported as undefined, never as some other valid date.",
["inputs"],
"all day numbers over tens of thousands of years, all date styles, separators, letter cases and times of day (including 24:00)",
"Tests check a list of chosen dates; leap-year, century, BC and style combinations are unbounded.",
["Utilities/DateTime/dateToYearMonthDay.c","Utilities/DateTime/julianToDate.c","Utilities/DateTime/yearMonthDayToJulian.c","Utilities/DateTime/julianToYearMonthDay.c","Utilities/DateTime/dateToJulian.c","Utilities/DateTime/yearMonthDayToDate.c","Utilities/DateTime/timeStringToSeconds.c","Utilities/DateTime/secondsToTimeString.c","Utilities/DateTime/dayOfWeek.c","Utilities/DateTime/isLeapYear.c","Utilities/DateTime/addCentury.c"],
[("day number arithmetic","Utilities/DateTime/yearMonthDayToJulian.c"),("date string parser","Utilities/DateTime/dateToYearMonthDay.c")],
["return values and strings of the date functions"])

p("C11","Interval arithmetic counts and steps the same calendar",
"Advancing a time by n intervals and counting the periods between the two times are inverse for every interval, n and starting time, negative n included; time normalisation keeps the instant unchanged; and each standard interval maps one-to-one between its name and its length. The offset of a time within its interval and the removal or addition of that offset are consistent with one another.",
["inputs"],
"all standard intervals and multiples, start times (end-of-month, leap days included), counts and offsets",
"Tests check a few increments; month-end and leap-day starts, long spans and sub-daily intervals crossing midnight are not enumerated.",
["Utilities/DateTime/incrementTime.c","Utilities/DateTime/numberPeriods.c","Utilities/DateTime/cleanTime.c","SemiPublic/ztsGetStandardInterval.c","Public/ztsOffset.c","Public/ztsOffsetAdjustToOffset.c","Public/ztsOffsetAdjustToStandard.c","Utilities/DateTime/isTimeDefined.c","Utilities/DateTime/compareTimes.c"],
[("calendar stepping","Utilities/DateTime/incrementTime.c"),("standard interval table","SemiPublic/ztsGetStandardInterval.c")],
["return values"])

p("C12","Pathname parts can be taken apart and put together without loss",
"For every valid pathname, extracting the six parts and forming a pathname from them gives back the same pathname; replacing one part changes only that part; comparison ignores letter case and nothing else. A pathname that is empty or longer than the documented maximum (392 characters) is rejected with an error and never stored.",
["inputs"],
"all pathnames (empty parts, maximum lengths, mixed case, blanks) and part replacements",
"Tests use a few well-formed pathnames.",
["Public/zpathnameForm.c","Public/zpathnameGetPart.c","Public/zpathnameSetPart.c","Public/zpathnamePartPositions.c","Public/zpathnamePartLengths.c","Public/zpathnameCompare.c","Public/zpathnameClean.c","Public/zpathnameAddPart.c","Internal/zcatParsePath.c"],
[("part position scan","Public/zpathnamePartPositions.c")],
["part strings, status codes"])

p("C13","The catalogue lists exactly the records that match the request",
"A catalogue request returns exactly the live pathnames matching the wildcard filter (all of them when none is given), each once with its record type and attributes, and in pathname order when a sorted catalogue is asked for. Filters on record type, status (deleted, alias) and date range include exactly the records they describe. A catalogue written to a file lists the same pathnames, and no part of a listed pathname is longer than the longest part the file reports.",
["inputs","histories"],
"all sets of stored pathnames and all wildcard filters, type and time filters, sorted and unsorted",
"Tests catalogue one fixed file with a few filters.",
["Public/zcatalog.c","Internal/zcatalogInternal.c","Internal/zcatParsePath.c","Public/zpathnameCompare.c","Internal/zcatSortPath.c","Utilities/sortfiles.c","Internal/zcollectionsPath.c","Public/zcollectionCat.c"],
[("wildcard match","Public/zpathnameCompare.c"),("bin walk","Internal/zcatalogInternal.c")],
["zStructCatalog entries, hec_dss_catalog buffers"])

p("C14","Squeezing, copying and duplicating preserve every record",
"Squeezing a file, copying all records of a file to another, or copying or duplicating a single record leaves every live record, of any data type, readable with identical data, header, type and attributes under the intended pathname, and does not bring deleted records back. The source file of a copy is unchanged.",
["histories","configurations"],
"all file contents (all record types, aliases, deleted and relocated records) and pre-existing target contents",
"Tests squeeze and copy one or two fixed files and look at few records.",
["Public/zsqueeze7.c","Public/zcopyFile.c","Internal/copyFile.c","DssInterface/v6and7/zcopyRecord.c","Public/zduplicateRecord.c"],
[("record by record transfer","Public/zcopyFile.c"),("squeeze via temporary file and rename","Public/zsqueeze7.c")],
["reads of all records before and after"])

p("C15","An alias is another name for the same record",
"After adding an alias, reading, writing or checking through the alias acts on the primary record and vice versa; listing and counting aliases report exactly the aliases added and not removed; removing an alias leaves the primary record and its other aliases intact. Adding an alias that collides with an existing name or for a missing record is refused.",
["histories"],
"all sequences of alias add/remove/list, reads, writes and deletes through any name",
"Tests add one alias and read through it.",
["Public/zaliasAdd.c","Public/zaliasRemove.c","Public/zaliasList.c","Public/zaliasNumber.c","Public/zaliasGetPrimary.c","Public/zaliasRemoveAll.c"],
[("alias entry pointing to primary info block","Public/zaliasAdd.c")],
["alias API results and reads"])

p("C16","Concurrent users of one file see a single consistent history",
"When several processes or handles have the same file open for multi-user access, each completed operation takes effect atomically and is visible to every other user's next operation, so that all reads agree with one sequential history and no update is lost. Exclusive access and squeezing are given only while nobody else has the file open, nobody else writes while one has exclusive access, and what is refused has no effect. The final file is structurally sound and holds exactly the records that history leaves.",
["schedules","histories"],
"all interleavings of reads, writes, deletes, catalogues and closes by several handles and processes",
"Tests open a single handle; no schedule of two writers is exercised.",
["System/zlockdss.c","Internal/zlockActive.c","Internal/zlockPassive.c","Internal/zcheckMultiUser.c","Internal/zcheckAccessReset.c","Internal/zpermRead.c","Internal/zhash.c"],
[("file locking and refresh of file header","Internal/zlockActive.c")],
["reads, counts and checks from every handle"])

p("C17","A crash or failed write harms at most the record being written",
"If a process stops at any point while storing, deleting, renaming or aliasing a record, or a disk write fails, every record that was completely stored before and is not the target of that operation still reads back unchanged after reopening, and the interrupted record is either absent, old or new, never reported as present with data of another record. Failed system writes are reported as an error by the operation that met them.",
["crash_points","fault_sequences"],
"all points between two successive file writes of any store, over-write, delete, rename, copy, undelete or change of aliases, and any single failed write",
"No test injects a fault or stops in the middle of an operation.",
["Internal/zwriteInternal.c","Internal/zwriteNew.c","Internal/zwriteExisting.c","Internal/zputBuff.c","System/writeBytes.c","Internal/zbinNew.c","Internal/zpermRead.c"],
[("order of data, info, bin and file header writes","Internal/zwriteNew.c"),("write status propagation","Internal/zputBuff.c")],
["state of the reopened file, return status"])

p("C18","Files are recognised, created and protected as documented",
"Opening a path creates a new file, opens an existing version 7 file, or refuses with the documented status; a file that is not a DSS file is never modified. A handle opened for read only can never change the file, whatever operations are tried on it, and the version query reports the documented code for any kind of file.",
["inputs","histories"],
"all file contents (empty, text, truncated, version 6, version 7), names and access modes, followed by any operations",
"Tests open good files and one bad file.",
["Internal/zopenInternal.c","Public/zgetFileVersion.c","Internal/zpermCreate.c","Internal/zcheckKeys.c","System/zopendisk.c"],
[("file identifier and key checks","Internal/zopenInternal.c")],
["status codes, file bytes before and after"])

p("C19","The hecdss C interface is faithful and stays inside the caller's buffers",
"Values, times, quality, text, paired data, grids, arrays and locations stored through the exported C interface are returned equal through it, sizes reported by its query functions are sufficient (and exact for paired data, arrays and grids), and no call writes beyond the buffer lengths the caller gave, whatever the stored data are. Too small buffers give a truncated result or an error, never damage. Its date functions follow the calendar and its log file holds the messages logged, in order.",
["inputs","histories"],
"all stored data, buffer lengths (including 0 and too small) and call sequences of the exported functions",
"Tests call each function once with ample buffers.",
["heclib/hecdss/hecdss.c","heclib/hecdss/hecdss.h"],
[("copy out to caller arrays with given length","heclib/hecdss/hecdss.c")],
["exported function outputs and guard bytes around buffers"])

p("C20","Vertical datum information and conversions are consistent",
"Vertical datum information converted between its structure, text and encoded forms is preserved, and elevations stored with or retrieved in a named datum differ from the native elevations by exactly the documented offset, so that storing and retrieving in the same datum returns the original values. Data that are not elevations are never shifted.",
["inputs"],
"all datum names, offsets, unit combinations, text encodings and time-series/paired-data values",
"Tests use a fixed list of datum descriptions and offsets.",
["Utilities/verticalDatum.c","Public/ztsStore.c","Public/ztsRetrieve.c","Public/zpdStore.c","Public/zpdRetrieve.c"],
[("parse/format of datum info and offsets","Utilities/verticalDatum.c")],
["struct fields, strings, retrieved values"])

p("C21","F-part tags have one canonical form",
"Normalising an F part is idempotent, independent of the order in which its tags are given, never loses or invents a tag or the untagged remainder, and rejects malformed tags with an error. Records stored under differently ordered tags of the same F part are the same record.",
["inputs"],
"all F parts with any set, order, case and content of tags",
"Tests check a fixed table of F parts.",
["Utilities/normalizeFPart.c","Public/zpathnameForm.c"],
[("tag parse, sort and rejoin","Utilities/normalizeFPart.c")],
["normalised strings, status"])

p("C22","Header-string and encoding utilities are lossless",
"A set of key/value pairs put in a record's user header can be read back, removed and replaced individually without affecting the others, base-64 and compress/uncompress encodings invert each other for any bytes, and delimited string extraction returns exactly the inserted text. The small text and word utilities under them (trimming, case, line copying, fixed columns, digits with commas, packing two words into one) give exactly the documented result and stay inside the size they are given.",
["inputs","histories"],
"all byte strings, keys, values, case-sensitivity flags and sequences of edits",
"Tests encode a few strings.",
["Utilities/stringHeaderUtility.c","Utilities/verticalDatum.c","Public/zlibcompress.c"],
[("user header as delimited string","Utilities/stringHeaderUtility.c")],
["returned strings and buffers"])

p("C23","Reported extents and sizes match the stored data",
"The first and last date/time of a series, the number of values in a window, the data type, the record type and the sizes reported for any record equal those of the data actually stored, for any series, window and history. Trimmed retrieval returns exactly the span from the first to the last non-missing value.",
["inputs","histories"],
"all series, windows, flags and store histories, regular and irregular, single record or full data set",
"Tests query one fixed series.",
["Internal/ztsGetSizesInternal.c","Public/ztsGetDateTimeRange.c","Public/ztsGetDateRange.c","SemiPublic/ztsGetFirstLastRecordTimes.c","SemiPublic/ztsGetFirstLastPathnames.c","Internal/ztsTrim.c","DssInterface/v6and7/zgetRecordBasics.c"],
[("walk to first and last block","SemiPublic/ztsGetFirstLastRecordTimes.c")],
["query function outputs"])

p("C24","Change tracking and comparison report exactly what changed",
"The record checksum, the data comparison and the what-changed queries report a record as changed if and only if its stored data differ from the earlier state; last-write times never decrease, and are updated for written records only.",
["histories"],
"all histories of stores, rewrites of equal and different data and reads between two observations",
"Tests change one record and look at it.",
["Public/zgetDataCRC.c","Public/zwhatChanged.c","Public/zwhatChangedCompare.c","Public/zwhatChangedSetStart.c","SemiPublic/zcompareDataSets.c","Public/zgetLastWriteTimeRec.c","Public/zgetLastWriteTimeFile.c"],
[("CRC over stored arrays","Public/zgetDataCRC.c")],
["checksums, change lists, times"])

p("C25","Profile and pattern series keep their shape",
"A time series of profiles (several depths per time) or a pattern series without calendar dates is returned with every depth, value and time unchanged, for regular and irregular series of any length and number of depths.",
["inputs","histories"],
"all numbers of depths, times, windows and precisions; all pattern intervals and values",
"Tests store one profile and one pattern.",
["Internal/ztsRegStoreBlock.c","Internal/ztsIrregStoreBlock.c","Public/ztsRetrievePattern.c","Internal/ztsRetrieveReg7.c","Internal/ztsRetrieveIrreg7.c"],
[("value element size > 1","Internal/ztsRegStoreBlock.c")],
["ztsRetrieve profile arrays"])

p("C26","Space reclaimed from deleted records is re-used without harm",
"With space reclamation switched on, any history of deletes, growing over-writes and new writes leaves every live record readable unchanged and the file structurally sound, and freed space is never given to two records. With reclamation off, a deleted record can be undeleted with its data intact as long as no new pathname has been created in the file since the delete.",
["histories","configurations"],
"all histories of writes, over-writes of different size and deletes under each reclamation level",
"Tests run their fixed scripts with reclamation on; they do not compare all live records after re-use.",
["Internal/zreleaseFileSpace.c","Internal/zgetFileSpace.c","Internal/zreclaimRead.c","Internal/zreclaimWrite.c","Internal/zreclaimSet.c","Internal/zwriteExisting.c","Internal/zdeleteInternal.c","DssInterface/v6and7/zundelete.c"],
[("reclaim array of free extents","Internal/zreleaseFileSpace.c"),("best-fit allocation","Internal/zgetFileSpace.c")],
["reads of all records, file checks"])

p("C27","A refused operation changes nothing",
"Any operation that returns an error (unknown pathname, wrong record type, invalid arguments, inconsistent sizes, invalid dates) leaves every record, the record count and the catalogue as they were, and the handle remains usable. Reading operations never change the file.",
["inputs","histories"],
"all erroneous calls in any file state",
"Tests check the return code of a few erroneous calls, not the state afterwards.",
["Internal/zwriteInternal.c","Public/zrename.c","Public/zduplicateRecord.c","Public/ztsStore.c","Public/zpdStore.c","Internal/zerrorProcessing.c"],
[("argument checks before the first write","Public/ztsStore.c")],
["status code and full state before/after"])

p("C28","Precision conversion and missing flags are faithful",
"Data stored as double and read as float, or stored as float and read as double, equal the correctly converted values, and the missing-value flag maps to the missing-value flag in both directions and is never produced from, or turned into, an ordinary value. Special values (zero, negative zero, tiny, huge) are returned as stored.",
["inputs"],
"all float and double values in all record kinds with every read-as flag",
"Tests read a few ordinary values.",
["Utilities/convertDataArray.c","Utilities/doublesToFloats.c","Utilities/floatsToDoubles.c","Utilities/zmissingFlag.c","Internal/ztsRetrieveReg7.c","Internal/ztsRetrieveIrreg7.c"],
[("conversion loops","Utilities/convertDataArray.c")],
["retrieved arrays"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
    for a in x["anchors"]["files"]+[m["where"] for m in x["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/"+a): print(x["id"],"missing",a)
