// C09: location information is shared by the data sets with the same A and B
// part, and only by those - a map model keyed by (A,B) over histories of
// stores (direct, with time series, with paired data), deletes, copies.
#include "rawstore.hpp"
#include <cfloat>
extern "C" int zlocationDelete(long long *ifltab, const char *pathname);
namespace {
typedef std::string S;
struct Loc { double x[3] = {0, 0, 0}; int i[6] = {0, 0, 0, 0, 0, 0}; S tz, sup; bool haveTz = false, haveSup = false; };
static double num(Case &c) { int k = (int)c.s.draw(5); if (k == 0) return 0; if (k == 1) return (double)c.s.range(-1800000, 1800000) / 10000; if (k == 2) return (double)c.s.range(-180, 180); if (k == 3) return ((double)c.s.draw(1u << 30) + 0.1) * 1234.5678; static const double sp[] = {DBL_MAX, -DBL_MAX, DBL_MIN, INFINITY, -0.5, 1e-300}; return sp[c.s.draw(6)]; }
static S word(Case &c, int lo, int hi) { static const char A[] = "ABCdefg-hij:klm;nop_qrs.tuv()0123 456789<>/\"=\n"; S s; int n = (int)c.s.range(lo, hi); uint32_t h = (uint32_t)c.s.draw(1 << 16); for (int i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; s.push_back(A[(h >> 16) % (sizeof A - 1)]); } if (n && (s[0] == ' ' || s[0] == '\n')) s[0] = 'x'; if (n && (s[n - 1] == ' ' || s[n - 1] == '\n')) s[n - 1] = 'x'; return s; }
static Loc genLoc(Case &c) {
  Loc l; if (c.s.chance(85)) for (auto &x : l.x) x = num(c); for (auto &i : l.i) i = c.s.chance(10) ? (int)c.s.range(-2000000000, 2000000000) : (int)c.s.draw(10);
  if (c.s.chance(60)) { l.haveTz = true; l.tz = word(c, 0, c.s.chance(10) ? 72 : 20); } if (c.s.chance(60)) { l.haveSup = true; l.sup = word(c, 0, c.s.chance(15) ? 3000 : 60); }
  if (l.x[0] == 0 && l.x[1] == 0 && l.x[2] == 0 && l.i[3] == 0 && l.i[5] == 0 && !l.haveSup && l.tz.empty()) l.x[0] = -121.5; // nothing to store otherwise
  return l;
}
static S show(const Loc &l) { return fmt("(%g,%g,%g; %d %d %d %d %d %d; tz %zu, supplemental %zu chars)", l.x[0], l.x[1], l.x[2], l.i[0], l.i[1], l.i[2], l.i[3], l.i[4], l.i[5], l.tz.size(), l.sup.size()); }
static zStructLocation *mk(const char *path, const Loc &l) { zStructLocation *z = zstructLocationNew(path); z->xOrdinate = l.x[0]; z->yOrdinate = l.x[1]; z->zOrdinate = l.x[2]; z->coordinateSystem = l.i[0]; z->coordinateID = l.i[1]; z->horizontalUnits = l.i[2]; z->horizontalDatum = l.i[3]; z->verticalUnits = l.i[4]; z->verticalDatum = l.i[5]; if (l.haveTz) { z->timeZoneName = strdup(l.tz.c_str()); z->allocated[zSTRUCT_timeZoneName] = 1; } if (l.haveSup) { z->supplemental = strdup(l.sup.c_str()); z->allocated[zSTRUCT_otherInformation] = 1; } return z; }
static void same(Case &c, const S &W, zStructLocation *z, const Loc *e) {
  Loc n; if (!e) e = &n; double g[3] = {z->xOrdinate, z->yOrdinate, z->zOrdinate}; for (int i = 0; i < 3; i++) if (memcmp(&g[i], &e->x[i], 8)) c.fail("%s: ordinate %d is %.17g, expected %.17g", W.c_str(), i, g[i], e->x[i]);
  int gi[6] = {z->coordinateSystem, z->coordinateID, z->horizontalUnits, z->horizontalDatum, z->verticalUnits, z->verticalDatum}; for (int i = 0; i < 6; i++) if (gi[i] != e->i[i]) c.fail("%s: location number %d is %d, expected %d", W.c_str(), i, gi[i], e->i[i]);
  S t = z->timeZoneName ? z->timeZoneName : "", s = z->supplemental ? z->supplemental : ""; if (t != e->tz) c.fail("%s: time zone is \"%s\" (%zu), expected \"%s\" (%zu)", W.c_str(), t.c_str(), t.size(), e->tz.c_str(), e->tz.size()); if (s != e->sup) c.fail("%s: supplemental text is \"%s\" (%zu), expected \"%s\" (%zu)", W.c_str(), s.c_str(), s.size(), e->sup.c_str(), e->sup.size());
}
struct W09 {
  Case &c; Dss d; S f; std::vector<std::pair<S, S>> ab; std::map<int, Loc> loc; std::map<S, int> ts, pd; W09(Case &cc) : c(cc) {}
  S mix(S s) { if (c.s.chance(30)) for (auto &ch : s) ch = (char)(c.s.chance(50) ? tolower((unsigned char)ch) : ch); return s; }
  S anyPath(int k) { static const char *R[] = {"/FLOW/01JAN2000/1HOUR/F/", "/STAGE-FLOW///X/", "////", "/Location Info////", "/FLOW//1HOUR/OBS/", "/PRECIP/01JAN2000:0100/01JAN2000:0200/G/", "/FLOW/01JAN1990 - 01JAN2000/IR-DAY/Z/"}; return mix("/" + ab[k].first + "/" + ab[k].second + S(c.s.pick({R[0], R[1], R[2], R[3], R[4], R[5], R[6]}))); }
  void read(int k) {
    const Loc *e = loc.count(k) ? &loc[k] : 0; S p = anyPath(k); zStructLocation *z = zstructLocationNew(p.c_str()); int st = zlocationRetrieve(d.ifltab, z);
    if (e ? st != 0 : st != -1) c.fail("zlocationRetrieve %s gave %d, expected %s", p.c_str(), st, e ? "a location" : "none"); same(c, "zlocationRetrieve " + p, z, e); zstructFree(z);
    for (auto &t : ts) if (t.second == k) { zStructTimeSeries *s = zstructTsNewTimes(t.first.c_str(), "01JAN2000", "0100", "01JAN2000", "0300"); s->locationStruct = zstructLocationNew(c.s.chance(50) ? t.first.c_str() : 0); if (!s->locationStruct->pathname) { s->locationStruct->pathnameInternal = strdup(t.first.c_str()); s->locationStruct->allocated[zSTRUCT_locationPathInternal] = 1; } s->allocated[zSTRUCT_TS_locationStruct] = 1; int st = ztsRetrieve(d.ifltab, s, 0, 0, 0); if (st) c.fail("ztsRetrieve %s gave %d", t.first.c_str(), st); same(c, "ztsRetrieve " + t.first, s->locationStruct, e); zstructFree(s); }
    for (auto &t : pd) if (t.second == k) { zStructPairedData *s = zstructPdNew(t.first.c_str()); int st = zpdRetrieve(d.ifltab, s, 0); if (st) c.fail("zpdRetrieve %s gave %d", t.first.c_str(), st); same(c, "zpdRetrieve " + t.first, s->locationStruct, e); zstructFree(s); }
  }
};
static void runC09(Case &c) {
  quiet(); W09 w(c); w.f = c.path("l.dss"); if (w.d.openFile(w.f)) c.fail("cannot create a file");
  std::vector<std::pair<S, S>> pool = {{"A", "B"}, {"A", "BC"}, {"AB", "C"}, {"A", ""}, {"", "B"}, {"", "A"}, {"", ""}, {"AB", ""}, {S(64, 'R'), S(64, 'S')}, {S(100, 'R'), S(110, 'S')}, {S(120, 'P'), S(96, 'Q') + "1"}, {S(120, 'P'), S(96, 'Q') + "2"}, {"A B", "C D"}, {"SACRAMENTO R", "FOLSOM-DAM"}};
  int np = (int)c.s.range(2, 4); int at = (int)c.s.draw((uint32_t)pool.size()); for (int i = 0; i < np; i++) w.ab.push_back(pool[(at + i) % pool.size()]);
  int n = (int)c.s.range(3, 20); bool rep = false;
  for (int it = 0; it < n; it++) { int k = (int)c.s.draw(np); auto base = [&]() { return "/" + w.ab[k].first + "/" + w.ab[k].second; };
    switch (c.s.weighted({7, 3, 3, 2, 2, 1, 1, 1, 5, 1})) {
    case 0: { Loc l = genLoc(c); int flag = c.s.chance(50); S p = w.anyPath(k); bool had = w.loc.count(k); c.note("zlocationStore %s flag %d %s", p.c_str(), flag, show(l).c_str()); zStructLocation *z = mk(p.c_str(), l); int st = zlocationStore(w.d.ifltab, z, flag); if (st) c.fail("zlocationStore %s flag %d gave %d", p.c_str(), flag, st); same(c, "the caller's structure after storing " + p, z, &l); zstructFree(z); if (!had || flag) { rep |= had; w.loc[k] = l; } if (had) c.label(flag ? "replace" : "keep"); else c.label("new"); c.evals(1); break; }
    case 1: { S p = base() + "/FLOW/01JAN2000/1HOUR/" + fmt("F%d/", (int)c.s.draw(2)); float v[3] = {1, 2, 3}; zStructTimeSeries *s = zstructTsNewRegFloats(p.c_str(), v, 3, "01JAN2000", "0100", "CFS", "INST-VAL"); Loc l = genLoc(c); bool give = c.s.chance(70); if (give) { s->locationStruct = mk(c.s.chance(50) ? p.c_str() : 0, l); s->allocated[zSTRUCT_TS_locationStruct] = 1; } c.note("ztsStore %s %s", p.c_str(), give ? show(l).c_str() : "without location"); int st = ztsStore(w.d.ifltab, s, 0); if (st) c.fail("ztsStore %s gave %d", p.c_str(), st); zstructFree(s); w.ts[up(p)] = k; if (give && !w.loc.count(k)) w.loc[k] = l; c.label("with-ts"); c.evals(1); break; }
    case 2: { S p = base() + "/STAGE-FLOW///X/"; float o[2] = {1, 2}, v[2] = {3, 4}; zStructPairedData *s = zstructPdNewFloats(p.c_str(), o, v, 2, 1, "FT", "LIN", "CFS", "LIN"); Loc l = genLoc(c); bool give = c.s.chance(70); if (give) { zstructFree(s->locationStruct); s->locationStruct = mk(p.c_str(), l); s->allocated[zSTRUCT_PD_locationStruct] = 1; } c.note("zpdStore %s %s", p.c_str(), give ? show(l).c_str() : "without location"); int st = zpdStore(w.d.ifltab, s, 0); if (st) c.fail("zpdStore %s gave %d", p.c_str(), st); zstructFree(s); w.pd[up(p)] = k; if (give && !w.loc.count(k)) w.loc[k] = l; c.label("with-pd"); c.evals(1); break; }
    case 3: { S p = w.anyPath(k); c.note("zlocationDelete %s", p.c_str()); int st = zlocationDelete(w.d.ifltab, p.c_str()); bool had = w.loc.count(k); if (had ? st != 0 : st == 0) c.fail("zlocationDelete %s gave %d, location %s", p.c_str(), st, had ? "exists" : "does not exist"); w.loc.erase(k); if (had) c.label("delete"); break; }
    case 4: { auto &m = c.s.chance(50) ? w.ts : w.pd; if (m.empty()) break; auto i = m.begin(); S p = i->first; if (&m == &w.ts) { c.note("delete %s", p.c_str()); if (zdelete(w.d.ifltab, p.c_str())) c.fail("zdelete %s failed", p.c_str()); } else { c.note("delete %s", p.c_str()); if (zdelete(w.d.ifltab, p.c_str())) c.fail("zdelete %s failed", p.c_str()); } m.erase(i); c.label("delete-data"); break; }
    case 5: { if (w.pd.empty()) break; S from = w.pd.begin()->first, to = base() + "/STAGE-FLOW///COPY/"; if (w.pd.count(up(to))) break; bool ren = c.s.chance(50); c.note("%s %s to %s", ren ? "rename" : "duplicate", from.c_str(), to.c_str()); int st = ren ? zrename(w.d.ifltab, from.c_str(), to.c_str()) : zduplicateRecord(w.d.ifltab, from.c_str(), to.c_str()); if (st) c.fail("%s %s to %s gave %d", ren ? "zrename" : "zduplicateRecord", from.c_str(), to.c_str(), st); if (ren) w.pd.erase(from); w.pd[up(to)] = k; c.label(ren ? "rename" : "duplicate"); break; }
    case 6: c.note("reopen"); w.d.close(); if (w.d.openFile(w.f)) c.fail("cannot reopen"); break;
    case 7: { S t = c.path(fmt("copy%d.dss", it).c_str()); Dss o; if (o.openFile(t)) c.fail("cannot create the copy"); c.note("copy the file"); int st = zcopyFile(w.d.ifltab, o.ifltab, 0); o.close(); w.d.close(); if (st) c.fail("zcopyFile gave %d", st); if (w.d.openFile(t)) c.fail("cannot open the copy"); w.f = t; c.label("copy-file"); break; }
    case 8: w.read(k); c.evals(1); break;
    case 9: { w.d.close(); c.note("squeeze"); int st = zsqueeze(w.f.c_str()); if (st) c.fail("zsqueeze gave %d", st); if (w.d.openFile(w.f)) c.fail("cannot reopen"); c.label("squeeze"); break; }
    } }
  for (int k = 0; k < np; k++) w.read(k); if (w.loc.size() > 1 || rep) c.nontrivial();
  if (int st = zcheckFile(w.d.ifltab)) c.fail("zcheckFile gave %d", st); w.d.close();
}
static eng::Reg r({"C09", "locations of two or more sites were stored, or one was replaced, and read back through several pathnames", runC09, 5000, 150000, "exploration", {"a location without ordinates, datums, time zone or supplemental text is nothing to store (zlocationStructValid)", "time zone names of up to 72 characters"}});
} // namespace
