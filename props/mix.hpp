// A file with records of every kind, stored through the public interface, and
// a raw snapshot of everything in a file.
#pragma once
#include "ts.hpp"
extern "C" {
#include "zdssKeys.h"
}
#include <set>
#include <map>
#include <unistd.h>

enum MixKind { MK_RAW, MK_REG, MK_IRR, MK_PD, MK_TEXT, MK_ARRAY, MK_GRID, MK_TIN, MK_LOC, MK_N };
inline const char *mixName(int k) { static const char *n[] = {"raw", "regular series", "irregular series", "paired data", "text", "array", "grid", "tin", "location"}; return n[k]; }
inline std::string mixWord(Case &c, int n) { std::string s; uint32_t h = (uint32_t)c.s.draw(1 << 16); for (int i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; s.push_back("ABCDefgh-ij_k"[(h >> 16) % 13]); } return s; }
// the pathname (or for series the pathname without block) used for kind k at slot i
inline std::string mixPath(int k, int site, int i) {
  static const char *C[] = {"raw", "Flow", "Stage-Obs", "Stage-Flow", "Text", "Array", "PRECIP", "Tin", "Location Info"};
  static const char *D[] = {"", "", "", "", "", "", "01JAN2000:0100", "", ""}; static const char *E[] = {"", "1Hour", "IR-Month", "", "", "", "01JAN2000:0200", "", ""};
  if (k == MK_LOC) return fmt("/Basin/Loc%d/Location Info////", site);
  std::string e = E[k]; if (k == MK_REG && i % 3 == 1) e = "1Day"; if (k == MK_REG && i % 3 == 2) e = "15Minute"; if (k == MK_IRR && i % 2) e = "IR-Year";
  return fmt("/Basin/Loc%d/%s/%s/%s/V%d/", site, C[k], D[k], e.c_str(), i);
}
inline std::vector<int> mixUH(Case &c) { IV u; if (c.s.chance(35)) { genIV(c, u, c.s.range(1, 20)); if (u.size() & 1) for (auto &w : u) w |= 0x01010101; } return u; }
// Data that look like records: words copied from a DSS file (this one, as far as it is on disk), as when a DSS
// file is stored in a DSS file. Starting at or a little before an info block; its pathname may be changed.
inline void mixLookalike(Case &c, Dss &d, RawRec &r) {
  auto &g = c.s; int h = (int)d.ifltab[zdssKeys.khandle];
  std::vector<long long> w; long long b[4096]; ssize_t n; while ((n = pread(h, b, sizeof b, (off_t)w.size() * 8)) >= 8 && w.size() < 400000) w.insert(w.end(), b, b + n / 8);
  std::vector<size_t> at; for (size_t i = 0; i < w.size(); i++) if (w[i] == DSS_INFO_FLAG && i + 40 < w.size()) at.push_back(i); if (at.empty()) return;
  size_t a = at[g.draw((uint32_t)at.size())], from = a - std::min(a, (size_t)g.draw(12)), len = 40 + g.draw(300); if (from + len > w.size()) len = w.size() - from;
  std::vector<long long> v(w.begin() + from, w.begin() + from + len); size_t p = a - from + zdssInfoKeys.kinfoPathname; if (p < v.size() && g.chance(60)) ((char *)&v[p])[1 + g.draw(5)] = 'Q';
  IV x(2 * v.size()); memcpy(x.data(), v.data(), 8 * v.size()); int where = (int)g.draw(3); (where == 0 ? r.v1 : where == 1 ? r.v2 : r.uh) = x; c.label("data-look-like-a-record");
}
// stores a record, returns the library's status
inline int mixStore(Case &c, Dss &d, int k, const std::string &path, std::string &desc, bool big = true) {
  auto &g = c.s; int st = -99;
  switch (k) {
  case MK_RAW: { RawRec r = genRec(c, 300, big ? 600 : 60); if (big && g.chance(12)) mixLookalike(c, d, r); desc = recStr(r); st = rawWrite(d, path, r, g.chance(15) ? (int)g.draw(300) : 0); break; }
  case MK_REG: case MK_IRR: {
    TsIn a; int n = 1 + (int)(big && g.chance(20) ? g.size(1500) : g.size(60)); i64 t0 = (cal::days(2000, (int)g.range(1, 4), (int)g.range(1, 28))) * cal::DAY;
    if (k == MK_REG) a.start = t0 + 86400; else { i64 t = t0 + 60 * g.range(1, 1000); int step = g.pick({60, 3600, 7200 * 9}); for (int i = 0; i < n; i++) { a.times.push_back(t); t += step + 60 * g.draw(3); } a.gran = 60; a.flag = 1; }
    a.dbl = path.back() == '/' && (path[path.size() - 2] & 1); a.v = genValues(c, n, a.dbl); a.units = g.pick({std::string("CFS"), std::string("ft"), std::string("a much longer unit text")}); if (g.chance(30)) a.tz = mixWord(c, 1 + (int)g.draw(20)); a.precision = (int)g.draw(4); a.uh = mixUH(c);
    if (g.chance(35)) { a.qs = g.chance(70) ? 1 : 2; genIV(c, a.q, (i64)n * a.qs); } if (g.chance(20)) for (int i = 0; i < n; i++) a.cn.push_back(i % 3 ? "" : mixWord(c, 1 + i % 9)); else if (g.chance(20)) { a.is = 1; genIV(c, a.in, n); }
    desc = fmt("%d values%s q%d notes%zu", n, a.dbl ? " double" : "", a.qs, a.cn.size() + a.in.size()); st = tsStore(d, path, a); break; }
  case MK_PD: {
    int no = (int)g.range(1, big ? 40 : 8), nc = (int)g.range(1, 5); bool dbl = path[path.size() - 2] & 1; auto o = genValues(c, no, dbl), v = genValues(c, (i64)no * nc, dbl); std::vector<float> fo(o.begin(), o.end()), fv(v.begin(), v.end()); zStructPairedData *p = zstructPdNew(path.c_str());
    if (dbl) p->doubleOrdinates = o.data(), p->doubleValues = v.data(); else p->floatOrdinates = fo.data(), p->floatValues = fv.data();
    p->numberOrdinates = no; p->numberCurves = nc; std::string u = "FT", t = "UNT", l; p->unitsIndependent = p->unitsDependent = &u[0]; p->typeIndependent = p->typeDependent = &t[0]; if (g.chance(50)) { for (int i = 0; i < nc; i++) { l += mixWord(c, 4); l.push_back(0); } p->labels = &l[0]; p->labelsLength = (int)l.size(); } IV uh = mixUH(c); if (uh.size()) p->userHeader = uh.data(), p->userHeaderNumber = (int)uh.size();
    desc = fmt("%dx%d", no, nc); st = zpdStore(d.ifltab, p, 0); p->doubleOrdinates = p->doubleValues = 0; p->floatOrdinates = p->floatValues = 0; p->unitsIndependent = p->unitsDependent = p->typeIndependent = p->typeDependent = p->labels = 0; p->userHeader = 0; zstructFree(p); break; }
  case MK_TEXT: { std::string s = mixWord(c, 1 + (int)g.size(big ? 2000 : 100)); zStructText *t = zstructTextNew(path.c_str()); t->textString = &s[0]; t->numberTextChars = (int)s.size(); IV uh = mixUH(c); if (uh.size()) t->userHeader = uh.data(), t->userHeaderNumber = (int)uh.size(); desc = fmt("%zu characters", s.size()); st = ztextStore(d.ifltab, t); t->textString = 0; t->userHeader = 0; zstructFree(t); break; }
  case MK_ARRAY: { IV a, b; genIV(c, a, g.size(200)); genIV(c, b, 2 * g.size(100)); std::vector<double> dd(b.size() / 2); if (b.size()) memcpy(dd.data(), b.data(), 4 * b.size()); zStructArray *t = zstructArrayNew(path.c_str()); if (a.empty() && dd.empty()) a.push_back(1); if (a.size()) t->intArray = a.data(); t->numberIntArray = (int)a.size(); if (dd.size()) t->doubleArray = dd.data(); t->numberDoubleArray = (int)dd.size(); desc = fmt("%zu ints %zu doubles", a.size(), dd.size()); st = zarrayStore(d.ifltab, t); t->intArray = 0; t->doubleArray = 0; zstructFree(t); break; }
  case MK_GRID: {
    int nx = (int)g.range(1, big ? 60 : 10), ny = (int)g.range(1, big ? 60 : 10); zStructSpatialGrid *z = zstructSpatialGridNew(path.c_str()); z->_structVersion = VERSION_100; z->_type = DATA_TYPE_SGT; z->_numberOfCellsX = nx; z->_numberOfCellsY = ny; z->_compressionMethod = g.chance(70) ? ZLIB_COMPRESSION : NO_COMPRESSION; z->_storageDataType = GRID_FLOAT; z->_dataUnits = strdup("MM"); z->_dataSource = strdup("x"); z->_srsName = strdup("n"); z->_srsDefinition = strdup(mixWord(c, 40).c_str()); z->_timeZoneID = strdup("GMT"); z->_cellSize = 2000;
    auto one = [](float f) { float *p = (float *)malloc(4); *p = f; return (void *)p; }; z->_minDataValue = one(0); z->_maxDataValue = one(9); z->_meanDataValue = one(4); z->_numberOfRanges = 2; z->_rangeLimitTable = calloc(2, 4); z->_numberEqualOrExceedingRangeLimit = (int *)calloc(2, 4); float *v = (float *)malloc((size_t)nx * ny * 4); auto gv = genValues(c, (i64)nx * ny, false); for (size_t i = 0; i < gv.size(); i++) v[i] = (float)gv[i]; z->_data = v; desc = fmt("%dx%d", nx, ny); st = zspatialGridStore(d.ifltab, z); zstructFree(z); break; }
  case MK_TIN: {
    int n = (int)g.range(1, 30); zStructSpatialTin *z = zstructSpatialTinNew(path.c_str()); std::string s = "SRS", w = mixWord(c, 8); std::vector<float> x(n), v(n); for (int i = 0; i < n; i++) x[i] = i, v[i] = (float)g.draw(3) + i; IV a(n, 1), b(n, 2), to(2 * n, 3); std::string lab; for (int i = 0; i < n; i++) { lab += w; lab.push_back(0); }
    z->SpatialReferenceSystem = z->SRSName = z->SRSUnits = z->units = z->type = z->timeZoneName = &s[0]; z->numberPoints = n; z->connectTableLen = 2 * n; z->pointLabelLen = (int)lab.size(); z->xCoordinate = z->yCoordinate = x.data(); z->value = v.data(); z->pointType = a.data(); z->numberConnections = b.data(); z->connectTo = to.data(); z->pointLabel = &lab[0]; desc = fmt("%d points", n); st = zspatialTinStore(d.ifltab, z); z->SpatialReferenceSystem = z->SRSName = z->SRSUnits = z->units = z->type = z->timeZoneName = 0; z->xCoordinate = z->yCoordinate = z->value = 0; z->pointType = z->numberConnections = z->connectTo = 0; z->pointLabel = 0; zstructFree(z); break; }
  case MK_LOC: { zStructLocation *z = zstructLocationNew(path.c_str()); z->xOrdinate = (double)g.range(-180, 180); z->yOrdinate = 45.5; z->coordinateSystem = 1; z->timeZoneName = strdup("PST"); z->allocated[zSTRUCT_timeZoneName] = 1; if (g.chance(50)) { z->supplemental = strdup(mixWord(c, 30).c_str()); z->allocated[zSTRUCT_otherInformation] = 1; } desc = fmt("%g", z->xOrdinate); st = zlocationStore(d.ifltab, z, 1); zstructFree(z); break; }
  }
  return st;
}

struct SnapRec { std::string name; RawRec r; int type = 0, first = 0, last = 0; long long wrote = 0; bool alias = false; std::string primary; };
typedef std::map<std::string, SnapRec> Snap;
// everything a file shows: the catalogue and each record in full
inline Snap snapshot(Case &c, Dss &d, const char *when) {
  Snap s; std::vector<std::string> other; zStructCatalog *cat = zstructCatalogNew(); cat->boolIncludeDates = 1; int n = zcatalog(d.ifltab, 0, cat, 0); if (n < 0) c.fail("%s: zcatalog gave %d", when, n);
  for (int i = 0; i < cat->numberPathnames; i++) { SnapRec x; x.name = cat->pathnameList[i]; x.type = cat->recordType[i]; if (cat->startDates) x.first = cat->startDates[i], x.last = cat->endDates[i]; if (cat->lastWriteTimeRecord) x.wrote = cat->lastWriteTimeRecord[i]; int st = rawRead(d, x.name, x.r); if (st) c.fail("%s: catalogued record \"%s\" cannot be read: %d", when, x.name.c_str(), st); if (x.type != x.r.type && x.type / 10 == x.r.type / 10 && (x.type < 120 || x.type / 10 == 20)) other.push_back(up(x.name)); else if (x.type != x.r.type) c.fail("%s: record \"%s\" is catalogued as type %d but reads as %d", when, x.name.c_str(), x.type, x.r.type); if (!s.emplace(up(x.name), x).second) c.fail("%s: \"%s\" is catalogued twice", when, x.name.c_str()); }
  zstructFree(cat); cat = zstructCatalogNew(); cat->statusWanted = REC_STATUS_ALIAS; zcatalog(d.ifltab, 0, cat, 0); for (int i = 0; i < cat->numberPathnames; i++) { auto it = s.find(up(cat->pathnameList[i])); if (it == s.end()) c.fail("%s: alias \"%s\" is not in the full catalogue", when, cat->pathnameList[i]); it->second.alias = true; char b[400]; int st = zaliasGetPrimary(d.ifltab, cat->pathnameList[i], b, sizeof b); if (st) c.fail("%s: no primary of alias \"%s\" (%d)", when, cat->pathnameList[i], st); it->second.primary = up(b); if (!s.count(it->second.primary)) c.fail("%s: the primary \"%s\" of alias \"%s\" is not in the catalogue", when, b, cat->pathnameList[i]); } zstructFree(cat);
  // the precision of a record may have been changed through another of its names (see the known finding of C24)
  for (auto &o : other) { SnapRec &x = s[o]; bool shared = x.alias; for (auto &e : s) if (e.second.alias && e.second.primary == o) shared = true; if (!shared) c.fail("%s: record \"%s\" is catalogued as type %d but reads as %d", when, x.name.c_str(), x.type, x.r.type); x.type = x.r.type; }
  return s;
}
// "" or what differs; attrs: dates and last write time too
inline std::string snapDiff(const SnapRec &a, const SnapRec &b, bool attrs = true) {
  std::string s = recDiff(a.r, b.r); if (a.alias != b.alias && attrs) s += a.alias ? " is no longer an alias" : " has become an alias"; if (a.type != b.type) s += fmt(" type %d, expected %d", b.type, a.type);
  if (attrs && (a.first != b.first || a.last != b.last)) s += fmt(" dates %d..%d, expected %d..%d", b.first, b.last, a.first, a.last);
  return s;
}
inline std::string snapsDiff(const Snap &want, const Snap &got, bool names = true) {
  for (auto &e : want) { auto it = got.find(e.first); if (it == got.end()) return fmt("record \"%s\" is gone", e.second.name.c_str()); std::string x = snapDiff(e.second, it->second); if (!x.empty()) return fmt("record \"%s\" differs: %s", e.second.name.c_str(), x.c_str()); if (names && e.second.name != it->second.name) return fmt("record \"%s\" is now named \"%s\"", e.second.name.c_str(), it->second.name.c_str()); }
  for (auto &e : got) if (!want.count(e.first)) return fmt("record \"%s\" has appeared", e.second.name.c_str());
  return "";
}
// random history of stores, overwrites, deletes and renames over all kinds
inline void mixPopulate(Case &c, Dss &d, int nops, int nsites = 2, bool big = true, int reclaim = 1) {
  if (reclaim > 1) zsetFile(d.ifltab, "reclaim", "", reclaim);
  for (int i = 0; i < nops; i++) {
    int op = (int)c.s.weighted({70, 15, 6, 4});
    if (op == 0) { int k = (int)c.s.draw(MK_N); std::string p = mixPath(k, (int)c.s.draw(nsites), (int)c.s.draw(3)), desc; int st = mixStore(c, d, k, p, desc, big); c.note("store %s \"%s\" %s", mixName(k), p.c_str(), desc.c_str()); if (st) c.fail("storing %s \"%s\" (%s) gave %d", mixName(k), p.c_str(), desc.c_str(), st); }
    else { zStructCatalog *cat = zstructCatalogNew(); int n = zcatalog(d.ifltab, 0, cat, 0); if (n > 0) { int j = (int)c.s.draw(n); std::string p = cat->pathnameList[j]; int type = cat->recordType[j];
        if (op == 1) { c.note("delete \"%s\"", p.c_str()); int st = zdelete(d.ifltab, p.c_str()); if (st) c.fail("deleting \"%s\" gave %d", p.c_str(), st); }
        else if (op == 2 && type != DATA_TYPE_LOCATION && p.compare(0, 10, "/Alias/of/") != 0) { size_t e = p.rfind('/', p.size() - 2); std::string q = p.substr(0, e + 1) + fmt("Ren%d/", (int)c.s.draw(2)); if (zcheck(d.ifltab, q.c_str()) != STATUS_RECORD_FOUND) { c.note("rename \"%s\" to \"%s\"", p.c_str(), q.c_str()); int st = zrename(d.ifltab, p.c_str(), q.c_str()); if (st) c.fail("renaming \"%s\" gave %d", p.c_str(), st); } }
        else if (op == 3 && type == 300) { std::string q = fmt("/Alias/of/%d////", (int)c.s.draw(3)); if (zcheck(d.ifltab, q.c_str()) != STATUS_RECORD_FOUND) { c.note("alias \"%s\" for \"%s\"", q.c_str(), p.c_str()); int st = zaliasAdd(d.ifltab, p.c_str(), q.c_str()); if (st) c.fail("adding an alias gave %d", st); } }
      } zstructFree(cat); } }
}
inline void mixStructure(Case &c, Dss &d, const char *when) {
  int st; if ((st = zcheckLinks(d.ifltab))) c.fail("%s: zcheckLinks gave %d", when, st); if ((st = zcheckPathnames(d.ifltab))) c.fail("%s: zcheckPathnames gave %d", when, st); if ((st = zcheckPathnameBins(d.ifltab))) c.fail("%s: zcheckPathnameBins gave %d", when, st);
  if ((st = zcheckHashTable(d.ifltab))) c.fail("%s: zcheckHashTable gave %d", when, st); if ((st = zcheckFile(d.ifltab))) c.fail("%s: zcheckFile gave %d", when, st);
}
