// Checksums, last write times, what-changed queries and struct comparison against the recorded history.
#include "mix.hpp"
#include <time.h>
#include <cmath>
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
extern "C" { int zundelete(long long *ifltab, const char *pathname); int zduplicateRecord(long long *ifltab, const char *from, const char *to); }
namespace {
typedef std::string S; typedef long long ll;
ll now() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return (ll)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
void tick() { ll a = now(); while (now() < a + 2) { timespec t = {0, 400000}; nanosleep(&t, 0); } }
// CRC-32 (reflected, no inversions), bit by bit
uint32_t crcBytes(uint32_t v, const IV &a) { const unsigned char *p = (const unsigned char *)a.data(); for (size_t i = 0; i < a.size() * 4; i++) { v ^= p[i]; for (int b = 0; b < 8; b++) v = v & 1 ? (v >> 1) ^ 0xedb88320u : v >> 1; } return v; }
uint32_t refCrc(const RawRec &r, uint32_t v) { v = crcBytes(v, r.v1); v = crcBytes(v, r.v2); v = crcBytes(v, r.v3); v = crcBytes(v, r.h2); return crcBytes(v, r.uh); }
bool sameData(const RawRec &a, const RawRec &b) { return a.v1 == b.v1 && a.v2 == b.v2 && a.v3 == b.v3 && a.h2 == b.h2 && a.uh == b.uh; }
bool sameRec(const RawRec &a, const RawRec &b) { return sameData(a, b) && a.ih == b.ih && a.type == b.type && a.nval == b.nval && a.lval == b.lval; }
std::vector<S> parts(const S &p) { std::vector<S> v; size_t a = 1; for (int i = 0; i < 6; i++) { size_t e = p.find('/', a); if (e == S::npos) e = p.size(); v.push_back(p.substr(a, e - a)); a = e + 1; } return v; }
bool wildPart(const S &w, const S &x) {
  if (w == "*") return true; bool a = !w.empty() && w[0] == '*', b = w.size() > 1 && w.back() == '*'; S core = w.substr(a, w.size() - a - b);
  if (a && b) return x.find(core) != S::npos; if (a) return x.size() >= core.size() && x.compare(x.size() - core.size(), core.size(), core) == 0; if (b) return x.compare(0, core.size(), core) == 0; return x == core;
}
bool wildMatch(const S &w, const S &p) { if (w.empty()) return true; auto a = parts(up(w)), b = parts(up(p)); for (int i = 0; i < 6; i++) if (!wildPart(a[i], b[i])) return false; return true; }
struct View { Snap s; std::map<S, ll> rec; std::set<S> group; ll file = 0; }; // rec: zgetLastWriteTimeRec; group: aliased records and aliases
View look(Case &c, Dss &d, const char *when, bool crc) {
  View v; v.s = snapshot(c, d, when); v.file = zgetLastWriteTimeFile(d.ifltab); if (v.file <= 0) c.fail("%s: zgetLastWriteTimeFile gave %lld", when, v.file);
  for (auto &e : v.s) if (e.second.alias) v.group.insert(e.first), v.group.insert(e.second.primary);
  for (auto &e : v.s) { const char *p = e.second.name.c_str(); ll t = zgetLastWriteTimeRec(d.ifltab, p); if (t <= 0) c.fail("%s: zgetLastWriteTimeRec(\"%s\") gave %lld", when, p, t); v.rec[e.first] = t;
    if (t > v.file) c.fail("%s: \"%s\" was last written %lld ms after the last write to the file", when, p, t - v.file);
    if (e.second.wrote != t) { if (v.group.count(e.first)) c.finding("other-name-of-aliased-record", "%s: the catalogue's last write time of \"%s\", a name of an aliased record, is %lld ms from the record's", when, p, e.second.wrote - t); else c.fail("%s: the catalogue's last write time of \"%s\" is %lld, the record's is %lld", when, p, e.second.wrote, t); }
    zStructTransfer *x = zstructTransferNew(p, 1); int st = zread(d.ifltab, x); if (st || x->lastWrittenTime != t || x->fileLastWrittenTime != v.file) c.fail("%s: zread of \"%s\" (%d) reports last write times %lld and %lld, expected %lld and %lld", when, p, st, (ll)x->lastWrittenTime, (ll)x->fileLastWrittenTime, t, v.file); zstructFree(x);
    zStructRecordBasics *b = zstructRecordBasicsNew(p); st = zgetRecordBasics(d.ifltab, b); if (st || b->recLastWriteTimeMillis != t || b->fileLastWriteTimeMillis != v.file) c.fail("%s: zgetRecordBasics of \"%s\" (%d) reports %lld and %lld, expected %lld and %lld", when, p, st, (ll)b->recLastWriteTimeMillis, (ll)b->fileLastWriteTimeMillis, t, v.file); zstructFree(b);
    zStructRecordSize *z = zstructRecordSizeNew(p); st = zgetRecordSize(d.ifltab, z); if (st || z->lastWriteTimeMillis != t) c.fail("%s: zgetRecordSize of \"%s\" (%d) reports last write %lld, expected %lld", when, p, st, (ll)z->lastWriteTimeMillis, t); zstructFree(z);
    if (crc) { uint32_t init = c.s.chance(30) ? (uint32_t)c.s.draw(1ull << 32) : 0, w = refCrc(e.second.r, init), got = zgetDataCRC(d.ifltab, p, init); if (got != w) c.fail("%s: zgetDataCRC(\"%s\", %u) gave %08x, the stored data have %08x", when, p, init, got, w); }
  }
  return v;
}
struct Obs { bool crc = false, own = false, zcat = false; S wild; View v; zStructCatalog *cs = 0; std::set<S> moved; };
void query(Case &c, Dss &d, Obs &o, const View &cur, const char *when) {
  zStructCatalog *cc = zstructCatalogNew(); int n; bool crc = o.crc; const char *w = o.wild.empty() ? 0 : o.wild.c_str();
  if (o.own) n = zwhatChanged(d.ifltab, cc); else { if (o.zcat && crc && c.s.chance(30)) crc = false; n = zwhatChangedCompare(d.ifltab, o.cs, cc, w, crc); }
  S what = fmt("%s: what changed (%s%s, wild \"%s\")", when, crc ? "checksums" : "times", o.own ? ", held by the handle" : "", o.wild.c_str());
  if (n < 0) c.fail("%s gave %d", what.c_str(), n); if (n != cc->numberPathnames) c.fail("%s returned %d but lists %d", what.c_str(), n, cc->numberPathnames);
  std::set<S> got; for (int i = 0; i < cc->numberPathnames; i++) { S u = up(cc->pathnameList[i]); const char *p = cc->pathnameList[i]; if (!got.insert(u).second) c.fail("%s lists \"%s\" twice", what.c_str(), p);
    auto it = cur.s.find(u); if (it == cur.s.end()) c.fail("%s lists \"%s\", which does not exist", what.c_str(), p);
    if (cc->recordType && cc->recordType[i] != it->second.type) c.fail("%s lists \"%s\" as type %d, it is %d", what.c_str(), p, cc->recordType[i], it->second.type);
    if (cc->lastWriteTimeRecord && cc->lastWriteTimeRecord[i] != it->second.wrote) c.fail("%s lists \"%s\" as written %lld, it was %lld", what.c_str(), p, cc->lastWriteTimeRecord[i], it->second.wrote);
    if (crc && cc->crcValues && cc->crcValues[i] != refCrc(it->second.r, 0)) c.fail("%s lists \"%s\" with checksum %08x, expected %08x", what.c_str(), p, cc->crcValues[i], refCrc(it->second.r, 0)); }
  int changed = 0;
  for (auto &e : cur.s) {
    auto was = o.v.s.find(e.first); bool match = wildMatch(o.wild, e.second.name), listed = got.count(e.first), written = cur.rec.at(e.first) > o.v.file, diff = was == o.v.s.end() || !sameData(was->second.r, e.second.r); const char *p = e.second.name.c_str();
    bool crcDiff = was == o.v.s.end() || refCrc(was->second.r, 0) != refCrc(e.second.r, 0);
    if (listed && !match) c.fail("%s lists \"%s\", which does not match", what.c_str(), p);
    if (listed && !written) c.fail("%s lists \"%s\", which has not been written since", what.c_str(), p);
    if (listed && crc && !crcDiff) c.fail("%s lists \"%s\", whose data are as before", what.c_str(), p);
    if (match && !listed && written && (!crc || (diff && crcDiff))) { if (cur.group.count(e.first) && e.second.wrote != cur.rec.at(e.first)) c.finding("other-name-of-aliased-record", "%s leaves out \"%s\", a name of an aliased record written through another name", what.c_str(), p); else c.fail("%s leaves out \"%s\", which %s since", what.c_str(), p, was == o.v.s.end() ? "is new" : diff ? "has changed" : "has been written"); }
    if (match && diff && !listed && !written && !o.moved.count(e.first)) c.fail("%s leaves out \"%s\", whose data have changed; its last write time is %lld ms before the observation", what.c_str(), p, o.v.file - cur.rec.at(e.first));
    if (match && written) changed++;
  }
  c.note("%s: %d listed", what.c_str(), n); if (changed && n < (int)cur.s.size()) c.label(crc ? "some records changed (checksums)" : "some records changed (times)"); zstructFree(cc);
}
// ---- comparison of structs
int cmp(Dss &d, void *a, void *b, int exact) { return zcompareDataSets(d.ifltab, a, b, 0, exact, "", "C24"); }
void expectCmp(Case &c, Dss &d, void *a, void *b, int exact, bool same, const char *what, const char *p) {
  int x = cmp(d, a, b, exact), y = cmp(d, b, a, exact); if ((x == 0) != same || (y == 0) != same) c.fail("zcompareDataSets of %s (\"%s\", exact %d) gave %d and %d reversed; the data are %s", what, p, exact, x, y, same ? "the same" : "different");
}
zStructTimeSeries *getTs(Case &c, Dss &d, const S &p, int dbl) { zStructTimeSeries *t = zstructTsNew(p.c_str()); int st = ztsRetrieve(d.ifltab, t, 0, dbl, 1); if (st) { zstructFree(t); return 0; } return t; }
bool eqs(const char *a, const char *b) { S x = a ? a : "", y = b ? b : ""; return up(x) == up(y); }
bool eqTs(const zStructTimeSeries *a, const zStructTimeSeries *b) {
  int n = a->numberValues; if (a->dataType != b->dataType || n != b->numberValues || a->precision != b->precision || !eqs(a->units, b->units) || !eqs(a->type, b->type) || !eqs(a->timeZoneName, b->timeZoneName)) return false;
  auto eq = [](const void *x, const void *y, size_t k) { return (!x && !y) || (x && y && !memcmp(x, y, k)); }; auto eqf = [](const float *x, const float *y, int k) { if (!x || !y) return !x && !y; for (int i = 0; i < k; i++) if (x[i] != y[i]) return false; return true; }; auto eqd = [](const double *x, const double *y, int k) { if (!x || !y) return !x && !y; for (int i = 0; i < k; i++) if (x[i] != y[i]) return false; return true; };
  if (!eqf(a->floatValues, b->floatValues, n) || !eqd(a->doubleValues, b->doubleValues, n)) return false;
  if (!a->times || !b->times) return false; for (int i = 0; i < n; i++) if ((ll)a->times[i] * a->timeGranularitySeconds + a->julianBaseDate * 86400ll != (ll)b->times[i] * b->timeGranularitySeconds + b->julianBaseDate * 86400ll) return false;
  if (a->qualityElementSize != b->qualityElementSize || !eq(a->quality, b->quality, 4ull * n * a->qualityElementSize) || a->inoteElementSize != b->inoteElementSize || !eq(a->inotes, b->inotes, 4ull * n * a->inoteElementSize) || a->cnotesLengthTotal != b->cnotesLengthTotal || !eq(a->cnotes, b->cnotes, a->cnotesLengthTotal)) return false;
  return a->userHeaderNumber == b->userHeaderNumber && (!a->userHeaderNumber || eq(a->userHeader, b->userHeader, 4ull * a->userHeaderNumber));
}
void bump(char *s, ll i) { s[i] = s[i] == 'X' || s[i] == 'x' ? 'Y' : 'X'; }
void compare(Case &c, Dss &d, const View &v) {
  auto &g = c.s; if (v.s.empty()) return; auto it = v.s.begin(); std::advance(it, g.draw(v.s.size())); const S p = it->second.name; int ty = it->second.type, exact = (int)g.draw(2); const char *pp = p.c_str();
  if (g.chance(30)) { // raw
    zStructTransfer *a = zstructTransferNew(pp, 1), *b = zstructTransferNew(pp, 1); if (zread(d.ifltab, a) || zread(d.ifltab, b)) c.fail("zread of \"%s\" failed", pp); expectCmp(c, d, a, b, exact, true, "a record and itself", pp);
    struct { int *p; int n; const char *w; } ar[] = {{b->internalHeader, b->internalHeaderNumber, "internal header"}, {b->header2, b->header2Number, "header 2"}, {b->userHeader, b->userHeaderNumber, "user header"}, {b->values1, b->values1Number, "values 1"}, {b->values2, b->values2Number, "values 2"}, {b->values3, b->values3Number, "values 3"}};
    for (auto &x : ar) if (x.p && x.n > 0) { int i = g.chance(50) ? x.n - 1 : (int)g.draw(x.n); int keep = x.p[i]; x.p[i] ^= 1 << (int)g.draw(32); expectCmp(c, d, a, b, exact, false, fmt("records with a different word %d of %d of %s", i, x.n, x.w).c_str(), pp); x.p[i] = keep; }
    int *nn[] = {&b->dataType, &b->numberValues, &b->logicalNumberValues}; int *q = nn[g.draw(3)]; (*q)++; expectCmp(c, d, a, b, exact, false, "records with a different type or number", pp); (*q)--;
    auto o = v.s.begin(); std::advance(o, g.draw(v.s.size())); zStructTransfer *e = zstructTransferNew(o->second.name.c_str(), 1); if (!zread(d.ifltab, e)) expectCmp(c, d, a, e, 0, sameRec(it->second.r, o->second.r), fmt("two records, the other \"%s\"", o->second.name.c_str()).c_str(), pp); zstructFree(e);
    zstructFree(a); zstructFree(b); c.label("compare records");
    zStructRecordSize *z = zstructRecordSizeNew(pp), *y = zstructRecordSizeNew(pp); if (zgetRecordSize(d.ifltab, z) || zgetRecordSize(d.ifltab, y)) c.fail("zgetRecordSize of \"%s\" failed", pp); expectCmp(c, d, z, y, 0, true, "record sizes", pp); int *sz[] = {&y->values1Number, &y->values2Number, &y->values3Number, &y->internalHeaderNumber, &y->header2Number, &y->userHeaderNumber, &y->numberValues, &y->logicalNumberValues, &y->dataType, &y->version}; ++*sz[g.draw(10)]; expectCmp(c, d, z, y, 0, false, "different record sizes", pp); zstructFree(z); zstructFree(y);
  } else if (ty >= 100 && ty < 120) {
    int dbl = (int)g.draw(3); zStructTimeSeries *a = getTs(c, d, p, dbl), *b = getTs(c, d, p, dbl); if (a && b) {
      expectCmp(c, d, a, b, exact, true, "a series and itself", pp); int n = b->numberValues, i = n > 1 && g.chance(60) ? (int)g.draw(n) : n - 1; S what = "series with ";
      std::vector<int> can = {0, 1, 2, 3, 4, 5}; if (b->quality) can.push_back(6), can.push_back(6); if (b->inotes) can.push_back(7), can.push_back(7); if (b->cnotes && b->cnotesLengthTotal > 0) can.push_back(8), can.push_back(8); if (b->userHeader && b->userHeaderNumber > 0) can.push_back(9), can.push_back(9); bool same = false;
      switch (can[g.draw(can.size())]) {
      case 0: case 1: what += fmt("a different value %d of %d", i, n); if (b->floatValues) b->floatValues[i] = nextafterf(b->floatValues[i], b->floatValues[i] > 0 ? -1.f : 1.f); else b->doubleValues[i] = nextafter(b->doubleValues[i], b->doubleValues[i] > 0 ? -1 : 1); break;
      case 2: what += fmt("a different time %d of %d", i, n); b->times[i]++; break;
      case 3: what += "different units"; if (b->units && b->units[0]) bump(b->units, g.draw(strlen(b->units))); else same = true; break;
      case 4: what += "a different type"; if (b->type && b->type[0]) bump(b->type, g.draw(strlen(b->type))); else same = true; break;
      case 5: what += "a different precision"; b->precision++; break;
      case 6: { ll k = g.draw((uint64_t)n * b->qualityElementSize); what += fmt("a different quality word %lld", k); b->quality[k] ^= 1 << (int)g.draw(32); break; }
      case 7: { ll k = g.draw((uint64_t)n * b->inoteElementSize); what += fmt("a different note word %lld", k); b->inotes[k] ^= 1 << (int)g.draw(32); break; }
      case 8: { ll k = g.draw(b->cnotesLengthTotal); what += fmt("a different note character %lld of %d", k, b->cnotesLengthTotal); bump(b->cnotes, k); break; }
      case 9: { int k = (int)g.draw(b->userHeaderNumber); what += fmt("a different user header word %d", k); b->userHeader[k] ^= 1 << (int)g.draw(32); break; }
      }
      expectCmp(c, d, a, b, exact, same, what.c_str(), pp);
      // the same series, fewer values
      if (a->numberValues > 1 && a->times) { int k = 1 + (int)g.draw(a->numberValues - 1), jj, ss; zStructTimeSeries *e = zstructTsNew(pp); splitT((ll)a->times[0] * a->timeGranularitySeconds + a->julianBaseDate * 86400ll, jj, ss); e->startJulianDate = jj; e->startTimeSeconds = ss; splitT((ll)a->times[k - 1] * a->timeGranularitySeconds + a->julianBaseDate * 86400ll, jj, ss); e->endJulianDate = jj; e->endTimeSeconds = ss;
        if (!ztsRetrieve(d.ifltab, e, 0, dbl, 1) && e->numberValues == k) { expectCmp(c, d, a, e, 0, false, fmt("series of %d and %d values", a->numberValues, k).c_str(), pp); c.label("compare a shorter series"); } zstructFree(e); }
      // another series or block
      std::vector<S> o; for (auto &e : v.s) if (e.second.type >= 100 && e.second.type < 120) o.push_back(e.second.name); S q = o[g.draw(o.size())]; zStructTimeSeries *e = getTs(c, d, q, g.chance(70) ? dbl : 0); if (e) { expectCmp(c, d, a, e, 0, eqTs(a, e), fmt("two series, the other \"%s\"", q.c_str()).c_str(), pp); zstructFree(e); }
      c.label("compare series"); }
    if (a) zstructFree(a); if (b) zstructFree(b);
  } else if (ty == DATA_TYPE_ARRAY) {
    zStructArray *a = zstructArrayNew(pp), *b = zstructArrayNew(pp); if (zarrayRetrieve(d.ifltab, a) || zarrayRetrieve(d.ifltab, b)) c.fail("zarrayRetrieve of \"%s\" failed", pp); int kinds = (a->intArray != 0) + (a->floatArray != 0) + (a->doubleArray != 0);
    for (int i = 0; a->floatArray && i < a->numberFloatArray; i++) if (a->floatArray[i] != a->floatArray[i]) kinds = 9; for (int i = 0; a->doubleArray && i < a->numberDoubleArray; i++) if (a->doubleArray[i] != a->doubleArray[i]) kinds = 9; // not a number is never equal
    if (kinds == 1) { expectCmp(c, d, a, b, exact, true, "an array and itself", pp); if (b->intArray) b->intArray[g.draw(b->numberIntArray)] ^= 1 << (int)g.draw(32); else if (b->floatArray) { float &f = b->floatArray[g.draw(b->numberFloatArray)]; f = f == f ? (f == 0 ? 1 : -f) : f; if (f != f) kinds = 0; } else { double &f = b->doubleArray[g.draw(b->numberDoubleArray)]; f = f == f ? (f == 0 ? 1 : -f) : f; if (f != f) kinds = 0; }
      if (kinds) expectCmp(c, d, a, b, exact, false, "different arrays", pp); c.label("compare arrays"); }
    zstructFree(a); zstructFree(b);
  } else if (ty == DATA_TYPE_LOCATION) {
    zStructLocation *a = zstructLocationNew(pp), *b = zstructLocationNew(pp); if (zlocationRetrieve(d.ifltab, a) || zlocationRetrieve(d.ifltab, b)) c.fail("zlocationRetrieve of \"%s\" failed", pp); expectCmp(c, d, a, b, exact, true, "a location and itself", pp);
    int k = (int)g.draw(11); double *x[] = {&b->xOrdinate, &b->yOrdinate, &b->zOrdinate}; int *y[] = {&b->coordinateSystem, &b->coordinateID, &b->horizontalUnits, &b->horizontalDatum, &b->verticalUnits, &b->verticalDatum}; bool same = false; if (k < 3) *x[k] += 0.25; else if (k < 9) ++*y[k - 3]; else { char *s = k == 9 ? b->timeZoneName : b->supplemental; if (s && *s) bump(s, g.draw(strlen(s))); else same = true; }
    expectCmp(c, d, a, b, exact, same, fmt("locations differing in field %d", k).c_str(), pp); zstructFree(a); zstructFree(b); c.label("compare locations");
  }
}
void run(Case &c) {
  auto &g = c.s; quiet(); int hash, bin; genConfig(c, hash, bin); S file = c.path("t.dss"); Dss d; int access = g.pick({0, 0, 0, 2}); int st = d.openFile(file, access, hash, bin); if (st) c.fail("open gave %d", st);
  bool two = access == 2 && g.chance(70); Dss w; if (two) { st = w.openFile(file, 2); if (st) c.fail("second open gave %d", st); c.label("two handles"); c.note("two handles"); }
  if (g.chance(30)) { int lv = 2 + (int)g.draw(2); zsetFile(d.ifltab, "reclaim", "", lv); c.note("reclaim level %d", lv); }
  std::vector<Obs> obs; int own = -1; std::set<S> deleted; View cur = look(c, d, "at the start", false); int nops = (int)g.range(4, c.tier ? 60 : 26), changes = 0, queries = 0, equalW = 0;
  auto dropAll = [&] { for (auto &o : obs) if (o.cs) zstructFree(o.cs); obs.clear(); own = -1; };
  for (int op = 0; op < nops; op++) {
    Dss &h = two && g.chance(50) ? w : d; std::set<S> must, may; bool readOnly = false, keepsTime = false; S name; int what = (int)g.weighted({30, 10, 12, 7, 3, 4, 3, 8, 3, 16, 18, 4, 8}); ll t0 = now(); Dss &oth = &h == &d ? w : d; ll my0 = zgetMyLastWriteTime(h.ifltab), oth0 = two ? zgetMyLastWriteTime(oth.ifltab) : 0; if (two && &h == &w) c.note("second handle:");
    auto pickRec = [&](bool raw) -> const SnapRec * { std::vector<const SnapRec *> v; for (auto &e : cur.s) if (!raw || e.second.type == 300) v.push_back(&e.second); return v.empty() ? 0 : v[g.draw(v.size())]; };
    auto root = [&](const S &n) { auto it = cur.s.find(up(n)); return it != cur.s.end() && it->second.alias ? it->second.primary : up(n); };
    auto names = [&](const S &n) { std::set<S> r; S x = root(n); r.insert(x); for (auto &e : cur.s) if (e.second.alias && e.second.primary == x) r.insert(e.first); return r; };
    if (what == 0) { int k = (int)g.draw(MK_N); S p = mixPath(k, (int)g.draw(2), (int)g.draw(3)), desc; st = mixStore(c, h, k, p, desc, g.chance(30)); if (st) c.fail("storing \"%s\" gave %d", p.c_str(), st); c.note("store \"%s\" %s", p.c_str(), desc.c_str()); may.insert(up(fmt("/Basin/Loc%d/Location Info////", (int)(p[10] - '0'))));
      if (k == MK_REG || k == MK_IRR) { auto a = parts(up(p)); for (auto &e : cur.s) { auto b = parts(e.first); if (a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[4] == b[4] && a[5] == b[5]) may.insert(e.first); } } else if (k != MK_LOC) must = names(p); else may = names(p); changes++; }
    else if (what == 1 || what == 2) { const SnapRec *r = pickRec(true); if (!r) continue; RawRec x = r->r; name = r->name; if (what == 2) { IV *a[] = {&x.v1, &x.v2, &x.v3, &x.h2, &x.uh, &x.ih}; IV *v = a[g.draw(6)]; if (v->size()) (*v)[g.chance(50) ? v->size() - 1 : g.draw(v->size())] ^= 1 << (int)g.draw(32); else x.v1.push_back(7); } else equalW++;
      must = names(name); st = rawWrite(h, name, x); if (st) c.fail("rewriting \"%s\" gave %d", name.c_str(), st); c.note("rewrite \"%s\" with %s data", name.c_str(), what == 2 ? "other" : "the same"); changes++; }
    else if (what == 3) { const SnapRec *r = pickRec(false); if (!r) continue; name = r->name; c.note("delete \"%s\"", name.c_str()); bool inGroup = cur.group.count(up(name)); st = zdelete(h.ifltab, name.c_str()); if (st) c.fail("deleting \"%s\" gave %d", name.c_str(), st); if (!inGroup) deleted.insert(name); }
    else if (what == 4) { if (deleted.empty()) continue; auto it = deleted.begin(); std::advance(it, g.draw(deleted.size())); name = *it; deleted.erase(it); if (cur.s.count(up(name))) continue; st = zundelete(h.ifltab, name.c_str()); c.note("undelete \"%s\" gave %d", name.c_str(), st); keepsTime = true; for (auto &o : obs) o.moved.insert(up(name)); }
    else if (what == 5) { const SnapRec *r = pickRec(true); if (!r || cur.group.count(up(r->name))) continue; name = r->name; S q = name.substr(0, name.rfind('/', name.size() - 2) + 1) + fmt("Ren%d/", (int)g.draw(3)); if (up(q) == up(name) || cur.group.count(up(q))) continue; st = zrename(h.ifltab, name.c_str(), q.c_str()); if (st) c.fail("renaming \"%s\" to \"%s\" gave %d", name.c_str(), q.c_str(), st); c.note("rename \"%s\" to \"%s\"", name.c_str(), q.c_str()); ll t1 = now(); View n = look(c, d, "after a rename", false); if (n.rec.count(up(q)) && n.rec[up(q)] != cur.rec[up(name)]) c.fail("renaming \"%s\" changed its last write time by %lld ms", name.c_str(), n.rec[up(q)] - cur.rec[up(name)]); (void)t1; for (auto &o : obs) o.moved.insert(up(q)); may.insert(up(q)); keepsTime = true; }
    else if (what == 6) { const SnapRec *r = pickRec(true); if (!r) continue; S q = fmt("/Dup//of/%d///", (int)g.draw(3)); if (cur.group.count(up(q))) continue; name = r->name; st = zduplicateRecord(h.ifltab, name.c_str(), q.c_str()); if (st) c.fail("duplicating \"%s\" gave %d", name.c_str(), st); c.note("duplicate \"%s\" as \"%s\"", name.c_str(), q.c_str()); must.insert(up(q)); changes++; }
    else if (what == 7) { readOnly = true; const SnapRec *r = pickRec(false); c.note("read"); if (r) { RawRec x; rawRead(h, r->name, x); zcheck(h.ifltab, r->name.c_str()); if (r->type >= 100 && r->type < 120) { zStructTimeSeries *t = zstructTsNew(r->name.c_str()); ztsRetrieve(h.ifltab, t, 0, 0, 1); zstructFree(t); } } if (zgetDataCRC(h.ifltab, "/no/such/record////", 0) != 0) c.fail("zgetDataCRC of an unknown record is not 0"); if (zgetLastWriteTimeRec(h.ifltab, "/no/such/record////") != 0) c.fail("zgetLastWriteTimeRec of an unknown record is not 0"); }
    else if (what == 8) { if (two) continue; dropAll(); d.close(); st = d.openFile(file, access); if (st) c.fail("reopen gave %d", st); c.note("reopen"); readOnly = true; }
    else if (what == 9) { // observation
      Obs o; o.v = cur; o.crc = g.chance(50); o.own = g.chance(40); o.wild = g.pick({S(""), S(""), S("/*/*/*/*/*/*/"), S("/*/Loc0/*/*/*/*/"), S("/*/*/*ow*/*/*/*/"), S("/*/*/R*/*/*/*/"), S("/*/*/*/*/*/*1/")}); const char *wp = o.wild.empty() ? 0 : o.wild.c_str();
      if (!o.own) { o.cs = zstructCatalogNew(); o.zcat = g.chance(40); } st = 0;
      if (o.zcat) { o.cs->boolGetCRCvalues = o.crc; st = zcatalog(d.ifltab, wp, o.cs, g.chance(30)); } else st = zwhatChangedSetStart(d.ifltab, o.cs, wp, o.crc); if (st < 0) c.fail("setting the start of change tracking gave %d", st); c.note("start tracking (%s%s%s) wild \"%s\"", o.crc ? "checksums" : "times", o.own ? ", own" : "", o.zcat ? ", catalogue" : "", o.wild.c_str());
      if (o.own) { if (own >= 0) obs.erase(obs.begin() + own); own = (int)obs.size(); } obs.push_back(o); tick(); readOnly = true; }
    else if (what == 10) { if (obs.empty()) continue; Obs &o = obs[g.draw(obs.size())]; query(c, d, o, cur, "later"); queries++; readOnly = true; }
    else if (what == 11) { const SnapRec *r = pickRec(true); if (!r || r->alias) continue; S q = fmt("/Alias/of/%d////", (int)g.draw(3)); if (cur.s.count(q) || cur.s.count(up(q))) continue; st = zaliasAdd(h.ifltab, r->name.c_str(), q.c_str()); if (st) c.fail("zaliasAdd gave %d", st); c.note("alias \"%s\" for \"%s\"", q.c_str(), r->name.c_str()); name = q; keepsTime = true; for (auto &o : obs) o.moved.insert(up(q)); }
    else { compare(c, d, cur); readOnly = true; }
    ll t1 = now(); S when = fmt("after operation %d", op); if (what != 8) { ll my = zgetMyLastWriteTime(h.ifltab); if (readOnly ? my != my0 : what <= 2 || what == 6 ? my < t0 || my > t1 : my < my0 || my > t1) c.fail("%s: the handle's own last write time is %lld ms from the start of the call, before it was %lld ms from that", when.c_str(), my - t0, my0 - t0);
      if (zinquire(h.ifltab, "mtim") != my) c.fail("zinquire mtim gives %lld, not %lld", (ll)zinquire(h.ifltab, "mtim"), my); if (two && zgetMyLastWriteTime(oth.ifltab) != oth0) c.fail("%s: the last write time of the other handle changed by %lld ms", when.c_str(), zgetMyLastWriteTime(oth.ifltab) - oth0); }
    View n = look(c, d, when.c_str(), g.chance(40));
    if (n.file < cur.file) c.fail("%s: the file's last write time went back by %lld ms", when.c_str(), cur.file - n.file); if (n.file > t1) c.fail("%s: the file's last write time is %lld ms in the future", when.c_str(), n.file - t1);
    if (readOnly && n.file != cur.file) c.fail("%s: the file's last write time changed although nothing was written", when.c_str());
    for (auto &e : n.s) { auto b = cur.s.find(e.first); bool isNew = b == cur.s.end(); bool diff = isNew || !sameRec(b->second.r, e.second.r); ll t = n.rec[e.first], was = isNew ? 0 : cur.rec[e.first]; bool fresh = t >= t0 && t <= t1; const char *p = e.second.name.c_str();
      if (keepsTime) { if (!isNew && !may.count(e.first) && t != was) c.fail("%s: the last write time of \"%s\" changed by %lld ms although it was not written", when.c_str(), p, t - was); continue; }
      if (must.count(e.first)) { if (!fresh) c.fail("%s: \"%s\" was written but its last write time is %lld ms before the call", when.c_str(), p, t0 - t); }
      else if (may.count(e.first)) { if (!(fresh || (!diff && t == was))) c.fail("%s: \"%s\" %s but its last write time is %lld ms before the call", when.c_str(), p, diff ? "changed" : "did not change", t0 - t); }
      else if (isNew) { if (!fresh) c.fail("%s: \"%s\" is new but its last write time is %lld ms before the call", when.c_str(), p, t0 - t); }
      else if (t != was) c.fail("%s: the last write time of \"%s\" changed by %lld ms although it was not written", when.c_str(), p, t - was);
      if (readOnly && diff) c.fail("%s: \"%s\" changed although nothing was written", when.c_str(), p);
      if ((must.count(e.first) || isNew) && n.file < t) c.fail("%s: file's last write time before the record's", when.c_str()); }
    cur = n;
  }
  for (auto &o : obs) query(c, d, o, cur, "at the end"), queries++;
  dropAll(); if (two) w.close(); d.close(); if (changes >= 2 && queries) c.nontrivial(); if (equalW) c.label("equal data rewritten");
}
}
static eng::Reg r({"C24", "random histories of stores of all kinds, rewrites with equal and different data, deletes, undeletes, renames, duplicates, aliases and reads (also through a second handle) with change-tracking observations in between; non-trivial: at least two writes and one what-changed query", run, 2500, 40000, "exploration",
  {"clocks do not step back while a case runs", "writes are told apart at a resolution of one millisecond, as stored", "records that arrive by rename or undelete keep their last write time and may be left out of a what-changed list", "copies between files keep the source's last write time and are not judged", "comparison of paired data and text structures is not supported by the library", "text is compared without regard to case"}});
