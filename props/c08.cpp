// C08: grids and TINs - bit exact cells under every compression, metadata,
// statistics and range tables; TIN points, connections and labels.
#include "rawstore.hpp"
#include <cfloat>
namespace {
typedef std::string S; typedef std::vector<float> FV;
struct Grid { int type = 0, ver = 0, dtype = 0, llx = 0, lly = 0, nx = 0, ny = 0, comp = 1, srst = 0, tzo = 0, isI = 0, isT = 0; S units, src, srs, def, tz; uint32_t cell = 0, xc = 0, yc = 0, nul = 0, mn = 0, mx = 0, me = 0; IV lim, num, data; };
struct Tin { int np = 0, ctl = 0, srst = 0, npt = 0; S s[6]; IV f; IV x, y, v, pt, nc, to; S lab; };
static int mixi(uint32_t &h) { h = h * 1664525u + 1013904223u; uint32_t r = h; r ^= r >> 16; r *= 0x7feb352du; r ^= r >> 15; r *= 0x846ca68bu; r ^= r >> 16; return (int)r; }
static S word(Case &c, int maxLen) { if (c.s.chance(15)) return S(); static const char A[] = "ABCdefg hij-klm[]\"(),./_0123456789%=:;"; S s; int n = (int)c.s.size(maxLen); uint32_t h = (uint32_t)c.s.draw(1 << 16); for (int i = 0; i < n; i++) s.push_back(A[(uint32_t)mixi(h) % (sizeof A - 1)]); if (n && s[n - 1] == 32) s[n - 1] = 120; if (n && s[0] == 32) s[0] = 121; return s; }
static int bits(float f) { int i; memcpy(&i, &f, 4); return i; }
// a single word: an ordinary number, an extreme, or any bit pattern
static int anyWord(Case &c) { int k = (int)c.s.draw(4); if (k == 0) return bits((float)c.s.range(-5000, 5000)); if (k == 1) return bits((float)c.s.range(-100000, 100000) / 7.f); if (k == 2) { static const float sp[] = {-FLT_MAX, FLT_MAX, FLT_MIN, -0.f, INFINITY, -INFINITY, NAN, -901.f}; return bits(sp[c.s.draw(8)]); } return (int)c.s.draw(0xffffffffu); }
static IV cells(Case &c, int64_t n) { IV v(n); int kind = (int)c.s.draw(7), a = anyWord(c), b = anyWord(c); uint32_t h = (uint32_t)c.s.draw(1 << 24); int every = (int)c.s.range(1, 50);
  for (int64_t i = 0; i < n; i++) { uint32_t r = (uint32_t)mixi(h); switch (kind) { case 0: v[i] = a; break; case 1: v[i] = bits((float)i); break; case 2: v[i] = (int)r; break; case 3: v[i] = bits((float)(r % 1000) / 8); break; case 4: v[i] = r % (uint32_t)every ? a : b; break; case 5: v[i] = (int)(0x3f800000u | (r & 0xffffu)); break; default: v[i] = (int64_t)i < n / 2 ? (int)r : b; } } return v; }
static void *dup(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }
static Grid genGrid(Case &c, const Grid *old) {
  Grid g; static const int T[] = {DATA_TYPE_UGT, DATA_TYPE_UG, DATA_TYPE_HGT, DATA_TYPE_HG, DATA_TYPE_AGT, DATA_TYPE_AG, DATA_TYPE_SGT, DATA_TYPE_SG};
  g.type = old ? old->type : T[c.s.draw(8)]; if (old && c.s.chance(50)) g = *old;
  else { int shape = (int)c.s.draw(6); int64_t m = c.tier ? 300 : 150; if (shape == 0) g.nx = g.ny = 1; else if (shape == 1 && c.s.chance(25)) { g.nx = 64 << c.s.draw(4); g.ny = 64 + (int)c.s.range(0, 1) * (c.s.chance(50) ? 64 : 1); } else if (shape == 1) { g.nx = (int)c.s.range(1, 40); g.ny = 1; } else if (shape == 2) { g.nx = 1 << c.s.range(0, 7); g.ny = 1 << c.s.range(0, 7); if (c.s.chance(30)) g.nx--; } else if (shape == 3 && c.s.chance(30)) { g.nx = 0; g.ny = (int)c.s.draw(3); } else { g.nx = (int)c.s.size(m); g.ny = (int)c.s.size(m); }
    g.units = word(c, 20); g.src = word(c, 20); g.srs = word(c, 40); g.def = word(c, 600); g.tz = word(c, 12); }
  g.ver = (int)c.s.range(0, 9); g.dtype = (int)c.s.draw(6); g.llx = (int)c.s.range(-9999, 9999); g.lly = (int)c.s.range(-2000000000, 2000000000); g.comp = c.s.chance(65) ? ZLIB_COMPRESSION : NO_COMPRESSION; g.srst = (int)c.s.draw(4); g.tzo = (int)c.s.range(-720, 720) * 60000; g.isI = c.s.chance(50); g.isT = c.s.chance(50);
  g.cell = anyWord(c); g.xc = anyWord(c); g.yc = anyWord(c); g.nul = anyWord(c); g.mn = anyWord(c); g.mx = anyWord(c); g.me = anyWord(c);
  int nr = c.s.chance(15) ? 0 : (int)c.s.size(30); for (int i = 0; i < nr; i++) { g.lim.push_back(anyWord(c)); g.num.push_back((int)c.s.draw(1 << 20)); }
  g.data = cells(c, (int64_t)g.nx * g.ny); return g;
}
static S gd(const Grid &g) { return fmt("type %d %dx%d comp %d ranges %zu def %zu chars", g.type, g.nx, g.ny, g.comp, g.lim.size(), g.def.size()); }
static char *opt(Case &c, const S &s) { if (s.empty() && c.s.chance(50)) return 0; return strdup(s.c_str()); }
static int storeGrid(Case &c, Dss &d, const S &path, const Grid &g, bool pre) {
  zStructSpatialGrid *z = zstructSpatialGridNew(path.c_str()); z->_structVersion = VERSION_100; z->_type = g.type; z->_version = g.ver; z->_dataType = g.dtype; z->_lowerLeftCellX = g.llx; z->_lowerLeftCellY = g.lly; z->_numberOfCellsX = g.nx; z->_numberOfCellsY = g.ny; z->_compressionMethod = g.comp; z->_srsDefinitionType = g.srst; z->_timeZoneRawOffset = g.tzo; z->_isInterval = g.isI; z->_isTimeStamped = g.isT; z->_storageDataType = GRID_FLOAT;
  memcpy(&z->_cellSize, &g.cell, 4); memcpy(&z->_xCoordOfGridCellZero, &g.xc, 4); memcpy(&z->_yCoordOfGridCellZero, &g.yc, 4); memcpy(&z->_nullValue, &g.nul, 4);
  z->_dataUnits = opt(c, g.units); z->_dataSource = opt(c, g.src); z->_srsName = opt(c, g.srs); z->_srsDefinition = opt(c, g.def); z->_timeZoneID = opt(c, g.tz);
  z->_minDataValue = dup(&g.mn, 4); z->_maxDataValue = dup(&g.mx, 4); z->_meanDataValue = dup(&g.me, 4); z->_numberOfRanges = (int)g.lim.size(); z->_rangeLimitTable = dup(g.lim.data(), g.lim.size() * 4); z->_numberEqualOrExceedingRangeLimit = (int *)dup(g.num.data(), g.num.size() * 4);
  int st;
  if (pre) { void *buf = 0; IV a = g.data; if (a.size() & 1) a.push_back(0); int n = compress_zlib(a.data(), (int)a.size() * 4, &buf); if (n <= 0) c.fail("compress_zlib of %zu bytes gave %d", a.size() * 4, n); z->_data = dup(buf, n); free(buf); st = zspatialGridStore_extended(d.ifltab, z, n); }
  else { z->_data = dup(g.data.data(), g.data.size() * 4); st = zspatialGridStore(d.ifltab, z); }
  zstructFree(z); return st;
}
static void checkGrid(Case &c, Dss &d, const S &path, const Grid *m) {
  zStructSpatialGrid *z = zstructSpatialGridNew(path.c_str()); bool withData = !c.s.chance(20); int st = zspatialGridRetrieve(d.ifltab, z, withData);
  if (!m) { if (st == 0) c.fail("%s is no grid but was retrieved as one", path.c_str()); zstructFree(z); return; }
  S W = fmt("%s (%s)", path.c_str(), gd(*m).c_str()); if (st) c.fail("retrieving %s gave %d", W.c_str(), st);
  auto I = [&](const char *w, long a, long b) { if (a != b) c.fail("%s of grid %s is %ld, stored %ld", w, W.c_str(), a, b); };
  I("struct version", z->_structVersion, VERSION_100); I("type", z->_type, m->type); I("version", z->_version, m->ver); I("data type", z->_dataType, m->dtype); I("lower left x", z->_lowerLeftCellX, m->llx); I("lower left y", z->_lowerLeftCellY, m->lly); I("cells x", z->_numberOfCellsX, m->nx); I("cells y", z->_numberOfCellsY, m->ny); I("compression", z->_compressionMethod, m->comp); I("srs type", z->_srsDefinitionType, m->srst); I("zone offset", z->_timeZoneRawOffset, m->tzo); I("is interval", z->_isInterval, m->isI); I("is time stamped", z->_isTimeStamped, m->isT); I("storage type", z->_storageDataType, GRID_FLOAT); I("number of ranges", z->_numberOfRanges, (long)m->lim.size());
  auto B = [&](const char *w, const void *p, uint32_t e) { uint32_t a; if (!p) c.fail("%s of grid %s is missing", w, W.c_str()); memcpy(&a, p, 4); if (a != e) c.fail("%s of grid %s is %08x, stored %08x", w, W.c_str(), a, e); };
  B("cell size", &z->_cellSize, m->cell); B("x of cell zero", &z->_xCoordOfGridCellZero, m->xc); B("y of cell zero", &z->_yCoordOfGridCellZero, m->yc); B("null value", &z->_nullValue, m->nul); B("minimum", z->_minDataValue, m->mn); B("maximum", z->_maxDataValue, m->mx); B("mean", z->_meanDataValue, m->me);
  for (size_t i = 0; i < m->lim.size(); i++) { B("range limit", (float *)z->_rangeLimitTable + i, m->lim[i]); B("range count", z->_numberEqualOrExceedingRangeLimit + i, m->num[i]); }
  auto str = [&](const char *w, const char *g, const S &e) { if (S(g ? g : "") != e) c.fail("%s of grid %s is \"%s\", stored \"%s\"", w, W.c_str(), g ? g : "", e.c_str()); };
  str("units", z->_dataUnits, m->units); str("source", z->_dataSource, m->src); str("srs name", z->_srsName, m->srs); str("srs definition", z->_srsDefinition, m->def); str("time zone", z->_timeZoneID, m->tz);
  if (withData) { if (m->data.size() && !z->_data) c.fail("no cells returned for grid %s", W.c_str()); for (size_t i = 0; i < m->data.size(); i++) if (((int *)z->_data)[i] != m->data[i]) c.fail("cell %zu of grid %s is %08x, stored %08x", i, W.c_str(), ((int *)z->_data)[i], m->data[i]); }
  else if (z->_data) c.fail("cells of grid %s were returned though not asked for", W.c_str());
  zstructFree(z); int v = -7; if (zspatialGridRetrieveVersion(d.ifltab, path.c_str(), &v) || v != 100) c.fail("grid version of %s is %d", W.c_str(), v);
}
static Tin genTin(Case &c) {
  Tin t; t.np = (int)c.s.size(c.tier ? 3000 : 300); if (!t.np) t.np = 1; t.srst = (int)c.s.draw(5); for (auto &s : t.s) s = word(c, c.s.chance(20) ? 500 : 20); t.f.resize(8); for (auto &f : t.f) f = anyWord(c);
  t.x = cells(c, t.np); t.y = cells(c, t.np); t.v = cells(c, t.np); t.pt = cells(c, t.np); for (int i = 0; i < t.np; i++) { t.nc.push_back((int)c.s.draw(9)); }
  t.to = cells(c, c.s.chance(15) ? 0 : c.s.size(t.np * 6)); if (!c.s.chance(25)) for (int i = 0; i < t.np; i++) { if (!c.s.chance(10)) { S w = word(c, 12); t.lab += w; } t.lab.push_back(0); } return t;
}
static int storeTin(Case &c, Dss &d, const S &path, const Tin &t) {
  zStructSpatialTin *z = zstructSpatialTinNew(path.c_str()); std::vector<char> lab(t.lab.begin(), t.lab.end()); Tin k = t; char *sp[6]; for (int i = 0; i < 6; i++) sp[i] = k.s[i].empty() && c.s.chance(50) ? 0 : &k.s[i][0];
  z->SpatialReferenceSystem = sp[0]; z->SRSName = sp[1]; z->SRSUnits = sp[2]; z->units = sp[3]; z->type = sp[4]; z->timeZoneName = sp[5]; z->SRSType = t.srst; float *F[] = {&z->slendernessRatio, &z->minXCoordinate, &z->minYCoordinate, &z->maxXCoordinate, &z->maxYCoordinate, &z->minValue, &z->meanValue, &z->maxValue}; for (int i = 0; i < 8; i++) memcpy(F[i], &t.f[i], 4);
  z->numberPoints = t.np; z->connectTableLen = (int)t.to.size(); z->pointLabelLen = (int)t.lab.size(); z->xCoordinate = (float *)k.x.data(); z->yCoordinate = (float *)k.y.data(); z->value = (float *)k.v.data(); z->pointType = k.pt.data(); z->numberConnections = k.nc.data(); z->connectTo = k.to.data(); z->pointLabel = lab.empty() ? 0 : lab.data();
  int st = zspatialTinStore(d.ifltab, z); z->SpatialReferenceSystem = z->SRSName = z->SRSUnits = z->units = z->type = z->timeZoneName = 0; z->xCoordinate = z->yCoordinate = z->value = 0; z->pointType = z->numberConnections = z->connectTo = 0; z->pointLabel = 0; zstructFree(z); return st;
}
static void checkTin(Case &c, Dss &d, const S &path, const Tin *m) {
  zStructSpatialTin *z = zstructSpatialTinNew(path.c_str()); bool all = !c.s.chance(15); int st = zspatialTinRetrieve(d.ifltab, z, all);
  if (!m) { if (st == 0) c.fail("%s is no TIN but was retrieved as one", path.c_str()); zstructFree(z); return; }
  S W = fmt("%s (%d points, %zu connections, %zu label bytes)", path.c_str(), m->np, m->to.size(), m->lab.size()); if (st) c.fail("retrieving TIN %s gave %d", W.c_str(), st);
  auto I = [&](const char *w, long a, long b) { if (a != b) c.fail("%s of TIN %s is %ld, stored %ld", w, W.c_str(), a, b); };
  I("points", z->numberPoints, m->np); I("connection table", z->connectTableLen, (long)m->to.size()); I("label length", z->pointLabelLen, (long)m->lab.size()); I("srs type", z->SRSType, m->srst);
  float *F[] = {&z->slendernessRatio, &z->minXCoordinate, &z->minYCoordinate, &z->maxXCoordinate, &z->maxYCoordinate, &z->minValue, &z->meanValue, &z->maxValue}; static const char *N[] = {"slenderness", "min x", "min y", "max x", "max y", "minimum", "mean", "maximum"}; for (int i = 0; i < 8; i++) if (memcmp(F[i], &m->f[i], 4)) c.fail("%s of TIN %s is %g, stored bits %08x", N[i], W.c_str(), *F[i], m->f[i]);
  const char *sp[] = {z->SpatialReferenceSystem, z->SRSName, z->SRSUnits, z->units, z->type, z->timeZoneName}; for (int i = 0; i < 6; i++) if (S(sp[i] ? sp[i] : "") != m->s[i]) c.fail("text %d of TIN %s is \"%s\", stored \"%s\"", i, W.c_str(), sp[i] ? sp[i] : "", m->s[i].c_str());
  if (all) {
    auto A = [&](const char *w, const void *p, const IV &e) { if (e.empty()) return; if (!p) c.fail("%s of TIN %s were not returned", w, W.c_str()); for (size_t i = 0; i < e.size(); i++) if (((const int *)p)[i] != e[i]) c.fail("%s %zu of TIN %s is %08x, stored %08x", w, i, W.c_str(), ((const int *)p)[i], e[i]); };
    A("x coordinate", z->xCoordinate, m->x); A("y coordinate", z->yCoordinate, m->y); A("value", z->value, m->v); A("point type", z->pointType, m->pt); A("connection count", z->numberConnections, m->nc); A("connection", z->connectTo, m->to);
    if (m->lab.size() && !z->pointLabel) c.fail("labels of TIN %s were not returned", W.c_str()); if (m->lab.size()) { S g(z->pointLabel, m->lab.size()); for (size_t i = 0; i < g.size(); i++) if (g[i] != m->lab[i]) c.fail("label byte %zu of TIN %s is %02x, stored %02x", i, W.c_str(), (unsigned char)g[i], (unsigned char)m->lab[i]); }
  }
  zstructFree(z);
}
static void runC08(Case &c) {
  quiet(); Dss d; S f = c.path("g.dss"); if (d.openFile(f)) c.fail("cannot create a file");
  std::vector<S> ps = {"/SHG/B0/PRECIP/01JAN2000:0100/01JAN2000:0200/V/", "/SHG/B1/TEMP/01MAR1999:2400//V/", "/SHG/B2/X///V/"}; std::map<S, Grid> g; std::map<S, Tin> t; int n = (int)c.s.range(2, 10);
  for (int it = 0; it < n; it++) { S p = c.s.pick(ps); int k = c.s.weighted({6, 3, 1, 1, 2});
    bool isG = g.count(p), isT = t.count(p);
    if (k == 0) { if (isT) continue; Grid x = genGrid(c, isG ? &g[p] : 0); bool pre = x.comp == ZLIB_COMPRESSION && x.data.size() && c.s.chance(20); c.note("store grid %s at %s%s", gd(x).c_str(), p.c_str(), pre ? " (compressed by the caller)" : ""); if (int st = storeGrid(c, d, p, x, pre)) c.fail("storing grid %s (%s)%s gave %d", p.c_str(), gd(x).c_str(), pre ? " compressed by the caller" : "", st); g[p] = x; c.evals(1); if (x.data.size() > 1) c.nontrivial(); c.label(x.comp == NO_COMPRESSION ? "grid-plain" : pre ? "grid-precompressed" : "grid-zlib"); }
    else if (k == 1) { if (isG) continue; Tin x = genTin(c); c.note("store TIN %d points %zu connections %zu label bytes at %s", x.np, x.to.size(), x.lab.size(), p.c_str()); if (int st = storeTin(c, d, p, x)) c.fail("storing TIN %s gave %d", p.c_str(), st); t[p] = x; c.evals(1); c.nontrivial(); c.label("tin"); }
    else if (k == 2) { if (!isG && !isT) continue; c.note("delete %s", p.c_str()); if (int st = zdelete(d.ifltab, p.c_str())) c.fail("zdelete %s gave %d", p.c_str(), st); g.erase(p); t.erase(p); c.label("delete"); }
    else if (k == 3) { c.note("reopen"); d.close(); if (d.openFile(f)) c.fail("cannot reopen"); }
    else { checkGrid(c, d, p, isG ? &g[p] : 0); checkTin(c, d, p, isT ? &t[p] : 0); c.evals(1); } }
  if (c.s.chance(50)) { d.close(); if (d.openFile(f)) c.fail("cannot reopen"); }
  for (auto &p : ps) { checkGrid(c, d, p, g.count(p) ? &g[p] : 0); checkTin(c, d, p, t.count(p) ? &t[p] : 0); c.evals(1); }
  if (int st = zcheckFile(d.ifltab)) c.fail("zcheckFile gave %d", st); d.close();
}
static eng::Reg r({"C08", "at least one grid of two or more cells or one TIN was stored and compared with the model after overwrites, deletes and reopens", runC08, 4000, 120000, "exploration", {"storage data type float (the only one the library supports) and structure version 100", "text fields do not begin or end with blanks (the library trims them)", "statistics pointers are supplied, as the API requires"}});
} // namespace
