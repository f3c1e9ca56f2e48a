// Extents, sizes and types reported for series and records against a model of what was stored.
#include "mix.hpp"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
extern "C" { int zdataType(long long *ifltab, const char *pathname); int zcopyFile(long long *ifltab, long long *ifltabTo, int statusWanted); int zsqueeze(const char *f); int zundelete(long long *ifltab, const char *pathname); int ztsGetFirstLastRecordTimes(long long *ifltab, const char *pathname, int *j1, int *s1, int *j2, int *s2, int secs); int ztsGetFirstLastPathnames(long long *ifltab, const char *seed, char *f, size_t fl, char *l, size_t ll); int zaliasAdd(long long *ifltab, const char *pathname, const char *alias); }
namespace {
typedef std::string S;
struct IrrB { const char *name; int size; i64 gap; };
const std::vector<IrrB> &irr() { static const std::vector<IrrB> v = {{"IR-Month", 2, 100000}, {"IR-Day", 1, 9000}, {"IR-Year", 3, 900000}, {"IR-Decade", 4, 9000000}, {"IR-Century", 5, 90000000}}; return v; }
struct Series {
  bool reg = true; RegTime rt; IrrB b{}; const char *iv = ""; int id = 0; S f = "F"; int gran = 60, base = 0; bool dbl = false, mixed = false; std::map<i64, double> val; std::set<i64> extra; // extra: slots that may carry quality or notes
  S seed(const S &d) const { return fmt("/Basin/B%d/Flow/%s/%s/%s/", id, d.c_str(), iv, f.c_str()); }
  i64 inst(i64 k) const { return reg ? rt.at(k) : k; }
  i64 std_(i64 k) const { return reg ? cal::eop(rt.iv, k) : k; }
  i64 blk(i64 k) const { i64 j = cal::fdiv(std_(k) - 1, cal::DAY); return reg ? cal::blockStart(rt.iv, j) : cal::irrBlockStart(b.size, j); }
  i64 next(i64 j) const { return cal::nextBlock(reg ? cal::blockKind(rt.iv) : b.size, j); }
};
struct Ext { i64 first = 0, last = 0, efirst = 0, elast = 0; bool any = false, some = false; int n = 0; }; // slots; e*: with what may carry quality or notes
Ext extent(const Series &s, bool all, i64 blk) {
  Ext e; auto ef = [&](i64 k) { if (!e.some) e.efirst = e.elast = k; e.efirst = std::min(e.efirst, k); e.elast = std::max(e.elast, k); e.some = true; };
  for (auto &x : s.val) { if (!all && s.blk(x.first) != blk) continue; e.n++; if (s.reg && isMiss(x.second)) continue; if (!e.any) e.first = x.first; e.last = x.first; e.any = true; ef(x.first); }
  for (i64 k : s.extra) if (all || s.blk(k) == blk) ef(k);
  return e;
}
// a reported instant must be that of the slot (or lie where quality or notes may be)
bool okT(const Series &s, i64 got, i64 k, i64 ek) { if (got == s.inst(k)) return true; if (!s.reg) return false; for (i64 x : s.extra) if (x >= std::min(k, ek) && x <= std::max(k, ek) && got == s.inst(x)) return true; return false; }
bool okJ(const Series &s, i64 j, i64 k, i64 ek) { auto jj = [&](i64 x) { return cal::fdiv(s.inst(x) - 1, cal::DAY); }; if (j == jj(k)) return true; if (!s.reg) return false; for (i64 x : s.extra) if (x >= std::min(k, ek) && x <= std::max(k, ek) && j == jj(x)) return true; return false; }
S jd(i64 j) { return cal::str(j * cal::DAY + cal::DAY).substr(0, 10); }
void checkSeries(Case &c, Dss &d, Series &s, const char *when) {
  auto &g = c.s; Ext all = extent(s, true, 0); std::set<i64> blocks; for (auto &x : s.val) blocks.insert(s.blk(x.first));
  std::set<i64> valued; for (i64 b : blocks) if (extent(s, false, b).any) valued.insert(b);
  // which records exist: those with values must, those with only missing values may
  zStructCatalog *cat = zstructCatalogNew(); cat->boolIncludeDates = 1; zcatalog(d.ifltab, s.seed("*").c_str(), cat, 0); std::map<i64, std::pair<S, std::pair<int, int>>> have;
  for (int i = 0; i < cat->numberPathnames; i++) { char dp[70]; zpathnameGetPart(cat->pathnameList[i], 4, dp, sizeof dp); i64 b = dateToJulian(dp); have[b] = {cat->pathnameList[i], {cat->startDates[i], cat->endDates[i]}}; if (!blocks.count(b)) c.fail("%s: record \"%s\" should not exist", when, cat->pathnameList[i]); }
  zstructFree(cat); for (i64 b : valued) if (!have.count(b)) c.fail("%s: the record of \"%s\" for block %s does not exist", when, s.seed("").c_str(), cal::dpart(b).c_str());
  S dseed; { int k = (int)g.draw(6); i64 b = blocks.empty() ? 36525 : *std::next(blocks.begin(), g.draw(blocks.size())); if (k == 1) dseed = cal::dpart(b); else if (k == 2) dseed = up(cal::dpart(b)); else if (k == 3) dseed = cal::dpart(s.next(b)); else if (k == 4 && s.val.size()) dseed = cal::dpart(cal::fdiv(s.std_(s.val.begin()->first) - 1, cal::DAY)); else if (k == 5 && blocks.size()) dseed = cal::dpart(*blocks.begin()) + " - " + cal::dpart(*blocks.rbegin()); }
  S seed = recase(c, s.seed(dseed)); int j1 = -77, s1 = -77, j2 = -77, s2 = -77, st; c.note("query with \"%s\"", seed.c_str());
  { char a[400] = "", z[400] = ""; st = ztsGetFirstLastPathnames(d.ifltab, seed.c_str(), a, sizeof a, z, sizeof z);
    if (have.empty()) { if (st == 0 || a[0] || z[0]) c.fail("%s: ztsGetFirstLastPathnames(\"%s\") gave %d \"%s\" \"%s\" for an empty data set", when, seed.c_str(), st, a, z); }
    else { if (st) c.fail("%s: ztsGetFirstLastPathnames(\"%s\") gave %d", when, seed.c_str(), st); if (up(a) != up(have.begin()->second.first) || up(z) != up(have.rbegin()->second.first)) c.fail("%s: ztsGetFirstLastPathnames(\"%s\") gave \"%s\" and \"%s\", expected \"%s\" and \"%s\"", when, seed.c_str(), a, z, have.begin()->second.first.c_str(), have.rbegin()->second.first.c_str()); } }
  st = ztsGetDateTimeRange(d.ifltab, seed.c_str(), 1, &j1, &s1, &j2, &s2); i64 t1 = (i64)j1 * cal::DAY + s1, t2 = (i64)j2 * cal::DAY + s2;
  if (have.empty()) { if (st == 0) c.fail("%s: ztsGetDateTimeRange(\"%s\", full set) succeeded for an empty data set", when, seed.c_str()); }
  else { if (st) c.fail("%s: ztsGetDateTimeRange(\"%s\", full set) gave %d", when, seed.c_str(), st);
    if (valued.count(have.begin()->first) && !okT(s, t1, all.first, all.efirst)) c.fail("%s: ztsGetDateTimeRange(\"%s\", full set): first value at %s, expected %s", when, seed.c_str(), cal::str(t1).c_str(), cal::str(s.inst(all.first)).c_str());
    if (valued.count(have.rbegin()->first) && !okT(s, t2, all.last, all.elast)) c.fail("%s: ztsGetDateTimeRange(\"%s\", full set): last value at %s, expected %s", when, seed.c_str(), cal::str(t2).c_str(), cal::str(s.inst(all.last)).c_str());
    st = ztsGetDateRange(d.ifltab, seed.c_str(), 1, &j1, &j2); if (st) c.fail("%s: ztsGetDateRange(\"%s\", full set) gave %d", when, seed.c_str(), st);
    if (valued.count(have.begin()->first) && !okJ(s, j1, all.first, all.efirst)) c.fail("%s: ztsGetDateRange(\"%s\", full set): first day %s, expected %s", when, seed.c_str(), jd(j1).c_str(), cal::str(s.inst(all.first)).c_str());
    if (valued.count(have.rbegin()->first) && !okJ(s, j2, all.last, all.elast)) c.fail("%s: ztsGetDateRange(\"%s\", full set): last day %s, expected %s", when, seed.c_str(), jd(j2).c_str(), cal::str(s.inst(all.last)).c_str()); }
  i64 sumN = 0, sumL = 0, sumV = 0; int found = 0;
  for (auto &h : have) {
    Ext e = extent(s, false, h.first); S p = recase(c, h.second.first);
    zStructRecordBasics *rb = zstructRecordBasicsNew(p.c_str()); st = zgetRecordBasics(d.ifltab, rb); if (st) c.fail("%s: zgetRecordBasics(\"%s\") gave %d", when, p.c_str(), st); int nv = rb->numberValues, lv = rb->logicalNumberValues, ty = rb->recordType; sumN += nv; sumL += lv; sumV += rb->values1Number; found++; zstructFree(rb);
    bool ts = s.reg ? ty == DATA_TYPE_RTS || ty == DATA_TYPE_RTD : ty == DATA_TYPE_ITS || ty == DATA_TYPE_ITD; if (!ts) c.fail("%s: record \"%s\" has type %d", when, p.c_str(), ty);
    int want = s.reg ? (s.dbl ? DATA_TYPE_RTD : DATA_TYPE_RTS) : (s.dbl ? DATA_TYPE_ITD : DATA_TYPE_ITS); if (!s.mixed && ty != want) c.fail("%s: record \"%s\" has type %d, expected %d", when, p.c_str(), ty, want);
    if ((st = zdataType(d.ifltab, p.c_str())) != ty) c.fail("%s: zdataType(\"%s\") is %d, the record has type %d", when, p.c_str(), st, ty);
    if (!s.reg) { if (nv != e.n || lv < e.n) c.fail("%s: record \"%s\" reports %d values (%d logical), %d are stored", when, p.c_str(), nv, lv, e.n); }
    else { i64 b1 = h.first * cal::DAY, b2 = s.next(h.first) * cal::DAY; i64 per = s.rt.slot(b2) - s.rt.slot(b1); if (s.rt.iv < cal::DAY ? lv != per : lv < per || lv > per + 1) c.fail("%s: record \"%s\" reports %d logical values, the block has %lld intervals", when, p.c_str(), lv, per);
      if (nv > lv) c.fail("%s: record \"%s\" reports %d values, %d logical", when, p.c_str(), nv, lv); if (e.any && s.extra.empty() && nv != e.last - e.first + 1) c.fail("%s: record \"%s\" reports %d values, but %lld lie between the first and the last", when, p.c_str(), nv, e.last - e.first + 1); if (e.any && nv < e.last - e.first + 1) c.fail("%s: record \"%s\" reports only %d values, %lld lie between the first and the last", when, p.c_str(), nv, e.last - e.first + 1); }
    st = ztsGetDateTimeRange(d.ifltab, p.c_str(), 0, &j1, &s1, &j2, &s2); t1 = (i64)j1 * cal::DAY + s1, t2 = (i64)j2 * cal::DAY + s2; if (st) c.fail("%s: ztsGetDateTimeRange(\"%s\") gave %d", when, p.c_str(), st);
    if (!e.any) continue;
    if (!okT(s, t1, e.first, e.efirst)) c.fail("%s: ztsGetDateTimeRange(\"%s\"): first value at %s, expected %s", when, p.c_str(), cal::str(t1).c_str(), cal::str(s.inst(e.first)).c_str()); if (!okT(s, t2, e.last, e.elast)) c.fail("%s: ztsGetDateTimeRange(\"%s\"): last value at %s, expected %s", when, p.c_str(), cal::str(t2).c_str(), cal::str(s.inst(e.last)).c_str());
    int a1, a2, x; st = g.chance(50) ? ztsGetDateRange(d.ifltab, p.c_str(), 0, &a1, &a2) : ztsGetFirstLastRecordTimes(d.ifltab, p.c_str(), &a1, &x, &a2, &x, 0); if (st) c.fail("%s: ztsGetDateRange(\"%s\") gave %d", when, p.c_str(), st);
    if (!okJ(s, a1, e.first, e.efirst) || !okJ(s, a2, e.last, e.elast)) c.fail("%s: ztsGetDateRange(\"%s\") gave %s .. %s, expected %s .. %s", when, p.c_str(), jd(a1).c_str(), jd(a2).c_str(), cal::str(s.inst(e.first)).c_str(), cal::str(s.inst(e.last)).c_str());
    a1 = h.second.second.first; a2 = h.second.second.second; if (!okJ(s, a1, e.first, e.efirst) || !okJ(s, a2, e.last, e.elast)) c.fail("%s: the catalogue gives \"%s\" as %s .. %s, expected %s .. %s", when, p.c_str(), jd(a1).c_str(), jd(a2).c_str(), cal::str(s.inst(e.first)).c_str(), cal::str(s.inst(e.last)).c_str());
  }
  if (have.size() && all.any) { // the window over everything: sizes of all its records
    zStructTimeSeries *t = zstructTsNew(s.seed("").c_str()); int j, x; splitT(s.inst(s.val.begin()->first), j, x); t->startJulianDate = j; t->startTimeSeconds = x; splitT(s.inst(s.val.rbegin()->first), j, x); t->endJulianDate = j; t->endTimeSeconds = x; t->timeGranularitySeconds = s.gran;
    st = ztsProcessTimes(d.ifltab, t, 0); if (st < 0) c.fail("%s: ztsProcessTimes gave %d", when, st); zStructRecordSize *rs = zstructRecordSizeNew(s.seed("").c_str()); st = ztsGetSizes(d.ifltab, t, rs); if (st) c.fail("%s: ztsGetSizes gave %d", when, st);
    if (rs->numberValues != sumN || rs->logicalNumberValues != sumL || rs->values1Number != sumV) c.fail("%s: ztsGetSizes over the whole of \"%s\" gave %d values (%d logical, %d words), its %d records hold %lld (%lld, %lld)", when, s.seed("").c_str(), rs->numberValues, rs->logicalNumberValues, rs->values1Number, found, sumN, sumL, sumV);
    if (s.reg && rs->tsTimeOffset != s.rt.off && s.rt.iv != cal::YEAR) c.fail("%s: ztsGetSizes gave an offset of %d, expected %lld", when, rs->tsTimeOffset, s.rt.off);
    zstructFree(rs); zstructFree(t); }
  if (all.any) { // whole data set
    TsQ q; q.flag = 0; TsOut o = tsGet(d, s.seed(""), q); if (o.status) c.fail("%s: retrieving all of \"%s\" gave %d", when, s.seed("").c_str(), o.status);
    if (!s.reg) { if (o.nv != (int)s.val.size()) c.fail("%s: retrieving all of \"%s\" gave %d values, %zu are stored", when, s.seed("").c_str(), o.nv, s.val.size()); }
    else if (o.t.empty() || cal::fdiv(s.inst(all.first), o.gran) * o.gran < o.t[0] || cal::fdiv(s.inst(all.last), o.gran) * o.gran > o.t.back()) c.fail("%s: retrieving all of \"%s\" gave %s .. %s, data span %s .. %s", when, s.seed("").c_str(), o.t.empty() ? "nothing" : cal::str(o.t[0]).c_str(), o.t.empty() ? "" : cal::str(o.t.back()).c_str(), cal::str(s.inst(all.first)).c_str(), cal::str(s.inst(all.last)).c_str());
    int n = 0; for (auto &x : s.val) n += !isMiss(x.second); int m = 0; for (double x : o.v) m += !isMiss(x); if (n != m) c.fail("%s: retrieving all of \"%s\" gave %d values that are not missing, %d are stored", when, s.seed("").c_str(), m, n);
    if (n && g.chance(50)) { q.flag = -1; if (!s.reg) q.flag = 0; if (s.reg) { q.window = true; q.start = s.inst(std::min(all.efirst, all.first) - (i64)g.draw(30)); q.end = s.inst(std::max(all.elast, all.last) + (i64)g.draw(30)); q.notes = 1; o = tsGet(d, s.seed(""), q); if (o.status) c.fail("%s: trimmed retrieval gave %d", when, o.status);
        if (o.nv != all.last - all.first + 1 || o.start != s.inst(all.first) || o.end != s.inst(all.last)) c.fail("%s: trimmed retrieval gave %d values %s .. %s, expected %lld values %s .. %s", when, o.nv, cal::str(o.start).c_str(), cal::str(o.end).c_str(), all.last - all.first + 1, cal::str(s.inst(all.first)).c_str(), cal::str(s.inst(all.last)).c_str()); } }
  }
}
// every record: what is reported without reading it against what is read
void checkRecords(Case &c, Dss &d, const char *when, const std::map<S, int> &types) {
  auto &g = c.s; zStructCatalog *cat = zstructCatalogNew(); cat->boolIncludeDates = 1; int n = zcatalog(d.ifltab, 0, cat, (int)g.draw(2)); if (n < 0) c.fail("%s: zcatalog gave %d", when, n); std::set<S> seen;
  for (int i = 0; i < cat->numberPathnames; i++) {
    S p = cat->pathnameList[i], q = recase(c, p); RawRec r; int st = rawRead(d, p, r); if (st) c.fail("%s: reading \"%s\" gave %d", when, p.c_str(), st); seen.insert(up(p));
    bool other = g.chance(30) && i; // what was accessed just before must not matter
    if (other) zcheck(d.ifltab, cat->pathnameList[g.draw(i)]);
    if (cat->recordType[i] != r.type) c.fail("%s: the catalogue gives \"%s\" type %d, the record has %d", when, p.c_str(), cat->recordType[i], r.type);
    if ((st = zdataType(d.ifltab, q.c_str())) != r.type) c.fail("%s: zdataType(\"%s\") gave %d, the record has type %d", when, q.c_str(), st, r.type);
    auto it = types.find(up(p)); if (it != types.end() && r.type != it->second && !((r.type / 10 == it->second / 10) && r.type < 300)) c.fail("%s: \"%s\" has type %d, stored was %d", when, p.c_str(), r.type, it->second);
    if (g.chance(30)) { char buf[400]; int num = -77; snprintf(buf, sizeof buf, "%s", q.c_str()); st = zinquireChar(d.ifltab, "type", buf, sizeof buf, &num); if (num != r.type) c.fail("%s: the type of \"%s\" is inquired as %d, the record has type %d", when, q.c_str(), num, r.type);
      zStructRecordBasics *b = zstructRecordBasicsNew(q.c_str()); if (zgetRecordBasics(d.ifltab, b)) c.fail("%s: zgetRecordBasics(\"%s\")", when, q.c_str()); if (other) zcheck(d.ifltab, cat->pathnameList[g.draw(i)]); snprintf(buf, sizeof buf, "%s", q.c_str()); num = -77; zinquireChar(d.ifltab, "rver", buf, sizeof buf, &num); if (num != b->version) c.fail("%s: the version of \"%s\" is inquired as %d, it is %d", when, q.c_str(), num, b->version); zstructFree(b); }
    zStructRecordBasics *b = zstructRecordBasicsNew(q.c_str()); zStructRecordSize *z = zstructRecordSizeNew(q.c_str()); int o = (int)g.draw(2); int s1 = 0, s2 = 0; if (o) s1 = zgetRecordBasics(d.ifltab, b); s2 = zgetRecordSize(d.ifltab, z); if (!o) s1 = zgetRecordBasics(d.ifltab, b); if (s1 || s2) c.fail("%s: zgetRecordBasics/Size(\"%s\") gave %d/%d", when, q.c_str(), s1, s2);
    auto cmp = [&](const char *what, long long got, long long want) { if (got != want) c.fail("%s: \"%s\": %s is reported as %lld, reading gives %lld", when, p.c_str(), what, got, want); };
    cmp("type", b->recordType, r.type); cmp("type (size)", z->dataType, r.type); cmp("numberValues", b->numberValues, r.nval); cmp("numberValues (size)", z->numberValues, r.nval); cmp("logicalNumberValues", b->logicalNumberValues, r.lval); cmp("logicalNumberValues (size)", z->logicalNumberValues, r.lval);
    cmp("values1", b->values1Number, r.v1.size()); cmp("values1 (size)", z->values1Number, r.v1.size()); cmp("values2", b->values2Number, r.v2.size()); cmp("values2 (size)", z->values2Number, r.v2.size()); cmp("values3", b->values3Number, r.v3.size()); cmp("values3 (size)", z->values3Number, r.v3.size());
    cmp("internalHeader", b->internalHeaderNumber, r.ih.size()); cmp("internalHeader (size)", z->internalHeaderNumber, r.ih.size()); cmp("header2", b->header2Number, r.h2.size()); cmp("header2 (size)", z->header2Number, r.h2.size()); cmp("userHeader", b->userHeaderNumber, r.uh.size()); cmp("userHeader (size)", z->userHeaderNumber, r.uh.size());
    if (b->allocatedSize < (int)(r.v1.size() + r.v2.size() + r.v3.size())) c.fail("%s: \"%s\": allocated size %d is less than the data", when, p.c_str(), b->allocatedSize); cmp("lastWriteTime", z->lastWriteTimeMillis, b->recLastWriteTimeMillis); cmp("catalogue lastWriteTime", p.find("/Alias/") == 0 ? b->recLastWriteTimeMillis : cat->lastWriteTimeRecord[i], b->recLastWriteTimeMillis);
    if (b->recCreationTimeMillis > b->recLastWriteTimeMillis && b->recCreationTimeMillis - b->recLastWriteTimeMillis > 5000) c.fail("%s: \"%s\": created at %lld, last written at %lld", when, p.c_str(), b->recCreationTimeMillis, b->recLastWriteTimeMillis);
    if (r.type >= 100 && r.type < 200) { auto ih = [&](int k) { return k < (int)r.ih.size() ? r.ih[k] : 0; }; cmp("offset", z->tsTimeOffset, ih(2)); cmp("precision", z->tsPrecision, ih(1)); cmp("value element size", z->tsValueElementSize, ih(8)); cmp("block start position", z->tsBlockStartPosition, ih(4)); cmp("block end position", z->tsBlockEndPosition, ih(5)); cmp("quality element size", z->tsQualityElementSize, ih(11)); cmp("cnotes length", z->tsCnotesLength, ih(16)); }
    else if (r.type >= 200 && r.type < 300) { zStructPairedData *pd = zstructPdNew(q.c_str()); st = zpdRetrieve(d.ifltab, pd, 0); if (st) c.fail("%s: zpdRetrieve(\"%s\") gave %d", when, q.c_str(), st); cmp("curves", z->pdNumberCurves, pd->numberCurves); cmp("ordinates", z->pdNumberOrdinates, pd->numberOrdinates); zstructFree(pd); }
    else if (r.type < 400 || r.type >= 500) { if (cat->startDates[i] || cat->endDates[i]) c.fail("%s: the catalogue gives \"%s\" (type %d) the dates %d .. %d", when, p.c_str(), r.type, cat->startDates[i], cat->endDates[i]); }
    zstructFree(b); zstructFree(z);
  }
  zstructFree(cat); for (auto &t : types) if (!seen.count(t.first)) c.fail("%s: \"%s\" is not in the catalogue", when, t.first.c_str());
  if (g.chance(50)) { S q = "/no/such/record////"; { char buf[400]; int num = 0; snprintf(buf, sizeof buf, "%s", q.c_str()); zinquireChar(d.ifltab, "type", buf, sizeof buf, &num); if (num >= 0) c.fail("%s: the type of a record that does not exist is inquired as %d", when, num); } zStructRecordBasics *b = zstructRecordBasicsNew(q.c_str()); zStructRecordSize *z = zstructRecordSizeNew(q.c_str()); int s1 = zgetRecordBasics(d.ifltab, b), s2 = zgetRecordSize(d.ifltab, z); if (s1 != -1 || s2 != -1) c.fail("%s: zgetRecordBasics/Size of a record that does not exist gave %d/%d", when, s1, s2); zstructFree(b); zstructFree(z); int j1, x, j2; if (!ztsGetFirstLastRecordTimes(d.ifltab, q.c_str(), &j1, &x, &j2, &x, 1)) c.fail("%s: ztsGetFirstLastRecordTimes of a record that does not exist succeeded", when); }
}
void store(Case &c, Dss &d, Series &s) {
  auto &g = c.s; TsIn a; std::vector<i64> key; int n;
  if (s.reg) {
    i64 k0; int iv = s.rt.iv;
    if (s.val.empty()) { i64 y = g.pick({2000, 1999, 1901, 1869, 2099}) + g.range(0, 3); i64 j = cal::days(y, (int)g.range(1, 12), g.chance(50) ? 1 : (int)g.range(1, 28)); if (g.chance(60)) j = cal::blockStart(iv, j); k0 = s.rt.slot(j * cal::DAY + 1) + g.range(-6, 6); }
    else { auto it = s.val.begin(); std::advance(it, g.draw(s.val.size())); k0 = it->first + g.range(-20, 20); if (g.chance(30)) { i64 j = s.blk(k0); if (g.chance(50)) j = s.next(j); if (g.chance(30)) j = s.next(j); k0 = s.rt.slot(j * cal::DAY + 1) + g.range(-4, 4); } }
    n = 1 + (int)(g.chance(8) ? g.size(c.tier ? 6000 : 2500) : g.size(60)); if (iv >= cal::MONTH) n = std::min(n, iv == cal::YEAR ? 150 : 800);
    for (int i = 0; i < n; i++) key.push_back(k0 + i);
    if (s.rt.off && (cal::eop(iv, k0 - 1) == 0 || cal::eop(iv, k0 + n - 2) == 0)) return;
    a.start = s.rt.at(k0); a.flag = g.pick({0, 0, 0, 0, 1, 4, 2, 3});
  } else {
    i64 t0, u = s.gran; if (s.val.empty()) { i64 j = cal::days(g.pick({2000, 1999, 1901, 1869, 2099}) + g.range(0, 3), (int)g.range(1, 12), g.chance(50) ? 1 : (int)g.range(1, 28)); if (g.chance(50)) j = cal::irrBlockStart(s.b.size, j); t0 = j * cal::DAY + g.range(-3, 3) * u; if (u == 1) s.base = (int)j; }
    else { auto it = s.val.begin(); std::advance(it, g.draw(s.val.size())); t0 = it->first; int w = (int)g.draw(4); if (w == 1) t0 += g.range(-5, 5) * u; else if (w == 2) t0 += g.range(-s.b.gap, s.b.gap) / 60 * 60; else if (w == 3) { i64 j = s.blk(t0); if (g.chance(60)) j = s.next(j); t0 = j * cal::DAY + g.range(-3, 3) * u; } }
    n = 1 + (int)(g.chance(8) ? g.size(600) : g.size(25)); int gm = (int)g.draw(4); i64 t = t0, cap = cal::days(2250, 1, 1) * cal::DAY;
    for (int i = 0; i < n && t < cap; i++) { key.push_back(t); i64 st = gm == 0 ? u : gm == 1 ? u * g.range(1, 5) : gm == 2 ? u + (i64)g.size(s.b.gap) / u * u : u * (1 + (i64)g.size(900)); t += st; }
    n = (int)key.size(); if (!n || key[0] == 0 || key.back() == 0) return; if (u == 1) { i64 mn = key[0], mx = key.back(); if (s.val.size()) mn = std::min(mn, s.val.begin()->first), mx = std::max(mx, s.val.rbegin()->first); i64 bs = (i64)s.base * cal::DAY; if (mx - s.blk(mn) * cal::DAY > 2100000000 || mx - bs > 2000000000 || mn - bs < -2000000000) return; }
    a.times = key; a.gran = u; a.base = s.base; a.flag = g.chance(25) ? 1 : 0;
  }
  a.dbl = s.dbl; if (s.mixed) a.dbl = g.chance(50); a.v = genValues(c, n, a.dbl); bool allMiss = true; for (double x : a.v) if (!isMiss(x)) allMiss = false; if (a.flag == 3 && allMiss && s.reg) a.flag = 0;
  if (g.chance(15)) { a.qs = g.chance(70) ? 1 : 2; for (int i = 0; i < n * a.qs; i++) a.q.push_back(g.chance(0) ? 0 : (i * 7 % 5 == 2 ? 3 : 0)); }
  if (g.chance(10)) { for (int i = 0; i < n; i++) a.cn.push_back(i % 4 == 1 ? "note" : ""); }
  c.note("store series %d %s .. %s n %d flag %d %s%s%s", s.id, cal::str(s.inst(key[0])).c_str(), cal::str(s.inst(key.back())).c_str(), n, a.flag, a.dbl ? "double" : "float", a.qs ? " quality" : "", a.cn.empty() ? "" : " notes");
  int st = tsStore(d, s.seed(""), a); if (st) c.fail("storing in \"%s\" gave %d", s.seed("").c_str(), st);
  if (!s.reg && a.flag == 1) s.val.erase(s.val.lower_bound(key[0]), s.val.upper_bound(key.back()));
  for (int i = 0; i < n; i++) { auto it = s.val.find(key[i]); bool old = it != s.val.end() && !isMiss(it->second), m = isMiss(a.v[i]); if (s.reg && (a.flag == 1 || a.flag == 4) && a.flag == 1 && old) continue; if (s.reg && a.flag == 4 && m && old) continue; s.val[key[i]] = a.v[i]; }
  if (s.reg && (a.qs || !a.cn.empty())) for (i64 k : key) s.extra.insert(k);
}
void run(Case &c) {
  quiet(); auto &g = c.s; Dss d; S file = c.path("t.dss"); int hash, bin; genConfig(c, hash, bin); int st = d.openFile(file, 0, hash, bin); if (st) c.fail("open gave %d", st);
  int ns = (int)g.range(1, 3); std::vector<Series> ss(ns); std::map<S, int> types; int kinds[] = {300, 0, 0, DATA_TYPE_PD, DATA_TYPE_TEXT, DATA_TYPE_ARRAY, 0, 0, DATA_TYPE_LOCATION};
  for (int i = 0; i < ns; i++) { auto &s = ss[i]; s.id = i; s.reg = g.chance(60); s.dbl = g.chance(40); s.mixed = g.chance(25); if (s.reg) { const IvName *iv = &g.pick(intervals()); if (iv->sec == cal::WEEK) iv = &intervals()[0]; s.rt = genRegTime(c, iv->sec); s.iv = iv->name; } else { s.b = g.pick(irr()); s.iv = s.b.name; if (s.b.size < 4 && g.chance(25)) s.gran = 1; } c.note("series %d %s offset %lld granularity %d%s", i, s.iv, s.rt.off, s.gran, s.mixed ? " mixed precision" : ""); c.label("%s", s.iv); if (s.rt.off) c.label("offset"); if (s.mixed) c.label("mixed precision"); if (s.gran == 1) c.label("seconds"); }
  int nops = (int)g.range(2, c.tier ? 24 : 12), stores = 0, queries = 0;
  for (int op = 0; op < nops; op++) {
    Series &s = ss[g.draw(ns)]; int what = (int)g.weighted({40, 20, 8, 14, 5, 4, 4, 5});
    if (what == 0) { store(c, d, s); stores++; }
    else if (what == 1) { checkSeries(c, d, s, "during"); queries++; }
    else if (what == 2 && s.val.size()) { // delete a block, perhaps bring it back
      i64 b = s.blk(std::next(s.val.begin(), g.draw(s.val.size()))->first); S p = s.seed(cal::dpart(b)); bool must = extent(s, false, b).any; c.note("delete \"%s\"", p.c_str()); st = zdelete(d.ifltab, p.c_str()); if (must && st) c.fail("deleting \"%s\" gave %d", p.c_str(), st);
      if (!st && g.chance(40)) { c.note("undelete"); st = zundelete(d.ifltab, p.c_str()); if (st) c.fail("undeleting \"%s\" gave %d", p.c_str(), st); }
      else { for (auto it = s.val.begin(); it != s.val.end();) if (s.blk(it->first) == b) it = s.val.erase(it); else ++it; for (auto it = s.extra.begin(); it != s.extra.end();) if (s.blk(*it) == b) it = s.extra.erase(it); else ++it; } c.label("delete"); }
    else if (what == 3) { int k = (int)g.draw(MK_N); if (k == MK_REG || k == MK_IRR) k = MK_RAW; S p = mixPath(k, 0, (int)g.draw(3)), desc; st = mixStore(c, d, k, p, desc, false); c.note("store %s \"%s\"", mixName(k), p.c_str()); if (st) c.fail("storing %s \"%s\" gave %d", mixName(k), p.c_str(), st); types[up(p)] = kinds[k]; if (!kinds[k]) types.erase(up(p)); }
    else if (what == 4) { d.close(); st = d.openFile(file, g.pick({0, 0, 2, 1 + 3})); if (st) c.fail("reopen gave %d", st); c.note("reopen"); }
    else if (what == 5) { // continue on a copy
      S to = fmt("%s%d.dss", file.c_str(), op); Dss e; st = e.openFile(to); if (st) c.fail("open copy gave %d", st); st = zcopyFile(d.ifltab, e.ifltab, 0); if (st) c.fail("zcopyFile gave %d", st); e.close(); d.close(); file = to; st = d.openFile(file); if (st) c.fail("open copy gave %d", st); c.note("continue on a copy"); c.label("copy"); }
    else if (what == 6) { d.close(); st = zsqueeze(file.c_str()); if (st) c.fail("zsqueeze gave %d", st); st = d.openFile(file); if (st) c.fail("open gave %d", st); c.note("squeeze"); c.label("squeeze"); }
    else if (what == 7 && s.val.size()) { // rename every record of the series
      S nf = s.f == "F" ? "Other" : "F"; zStructCatalog *cat = zstructCatalogNew(); zcatalog(d.ifltab, s.seed("*").c_str(), cat, 0); c.note("rename series %d to version %s", s.id, nf.c_str()); for (int i = 0; i < cat->numberPathnames; i++) { S p = cat->pathnameList[i], q = p; q.resize(q.size() - s.f.size() - 1); q += nf + "/"; st = zrename(d.ifltab, p.c_str(), q.c_str()); if (st) c.fail("renaming \"%s\" gave %d", p.c_str(), st); } zstructFree(cat); s.f = nf; c.label("rename"); }
  }
  for (int again = 0; again < 2; again++) { for (auto &s : ss) checkSeries(c, d, s, again ? "reopened" : "at the end"), queries++; checkRecords(c, d, again ? "reopened" : "at the end", types); d.close(); if (!again && (st = d.openFile(file, 1))) c.fail("reopen gave %d", st); }
  bool multi = false; for (auto &s : ss) if (s.val.size() && s.blk(s.val.begin()->first) != s.blk(s.val.rbegin()->first)) multi = true; if (multi) c.label("several blocks"); if (multi && stores >= 2) c.nontrivial();
}
}
static eng::Reg r({"C23", "random histories of stores (regular and irregular, all intervals but weekly, offsets, flags, quality, notes, mixed precision), deletes, undeletes, renames, copies, squeezes and records of other types; then extents, sizes and types as reported against a model and against what is read; non-trivial: at least two stores and a series over more than one record", run, 6000, 80000, "exploration", {"a regular record without any value may or may not be kept; its own extent is not judged", "positions with quality or notes but a missing value may count as the first or last of a record", "weekly data excluded (see the weekly-block-edge finding)"}});
