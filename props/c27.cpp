// A refused operation changes nothing, and reading never writes: erroneous calls of every kind, in any file state.
#include <dirent.h>
#include "mix.hpp"
#include "hecdss.h"
#include "wrap.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
extern "C" { int zundelete(long long *ifltab, const char *pathname); int zundeleteAll(long long *ifltab); int zlocationDelete(long long *ifltab, const char *pathname); int zaliasNumber(long long *ifltab, const char *pathname, int *numberAliases); int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *filename); int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *filename); int zanalyzeFile(long long *ifltab); int zcollectionCat(long long *ifltab, const char *seedPathname, zStructCatalog *catStruct); }
namespace {
typedef std::string S;
// read by a child: closing the file here would drop the library's locks on it
S slurp(const S &p) {
  int q[2]; if (pipe(q)) return "<no pipe>"; pid_t k = fork(); char b[65536]; ssize_t n;
  if (!k) { int f = open(p.c_str(), O_RDONLY); if (f < 0) { if (write(q[1], "<unreadable>", 12) < 0) {} _exit(0); } while ((n = read(f, b, sizeof b)) > 0) { char *x = b; while (n > 0) { ssize_t m = write(q[1], x, n); if (m <= 0) _exit(0); x += m; n -= m; } } _exit(0); }
  close(q[1]); S s; while ((n = read(q[0], b, sizeof b)) > 0) s.append(b, n); close(q[0]); waitpid(k, 0, 0); return s;
}
bool isPath(const S &p) { return p.size() < 390 && std::count(p.begin(), p.end(), '/') == 7 && p[0] == '/' && p.back() == '/'; }
// a name nothing can be stored under
S noTarget(Case &c) { switch (c.s.draw(3)) { case 0: return ""; case 1: return "/A/" + S(400 + c.s.draw(400), 'b') + "/C////"; default: return S(400 + c.s.draw(500), 'x'); } }
void spit(const S &p, const S &d) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (write(f, d.data(), d.size()) < 0) {} close(f); }
void messages(Case &c) { if (!c.s.chance(20)) return; hec_dss_open_log_file("/dev/null"); zset("mlvl", "", 1 + (int)c.s.draw(15)); c.label("with messages"); }

struct Ctl {
  Case &c; Dss d; S f; Snap snap; int access; std::vector<S> names; long long nrec = 0, npri = 0, nali = 0; Dss other; Snap osnap;
  Ctl(Case &x) : c(x) {}
  void counts() { nrec = zinquire(d.ifltab, "nrec"); npri = zinquire(d.ifltab, "npri"); nali = zinquire(d.ifltab, "nali"); }
  void take(const char *when) { snap = snapshot(c, d, when); names.clear(); for (auto &e : snap) names.push_back(e.second.name); counts(); }
  // a lock another process would meet: start and length, or ""
  S locks() { if (access != 2) return ""; int p[2]; if (pipe(p)) return ""; pid_t k = fork(); if (!k) { int h = open(f.c_str(), O_RDWR); struct flock l; memset(&l, 0, sizeof l); l.l_type = F_WRLCK; l.l_start = 800; l.l_len = 24; S s; if (h >= 0 && !fcntl(h, F_GETLK, &l) && l.l_type != F_UNLCK) s = fmt("%ld+%ld", (long)l.l_start, (long)l.l_len); if (write(p[1], s.data(), s.size()) < 0) {} _exit(0); } close(p[1]); char b[80]; ssize_t n = read(p[0], b, sizeof b); close(p[0]); waitpid(k, 0, 0); return S(b, n > 0 ? n : 0); }
};

S word(Case &c) { return c.s.pick(std::vector<S>{"No", "Such", "record", "%s%n", "x y", "\xc3\xa9t\xc3\xa9", "Loc0"}); }
// a name no record has
S unknownPath(Case &c, Ctl &k) {
  for (int i = 0; i < 20; i++) { S p; int how = (int)c.s.weighted({35, 20, 25, 20}); if (how == 0 || k.names.empty()) p = "/" + word(c) + "/" + word(c) + "/" + word(c) + "/01Jan2000/1Hour/" + word(c) + "/"; else { p = c.s.pick(k.names); size_t a = p.rfind('/', p.size() - 2); if (how == 1) p.insert(a + 1, "Z"); else if (how == 2) p = p.substr(0, p.size() - 1) + "q/"; else p.insert(1, "Z"); } if (!k.snap.count(up(p))) return p; }
  return "/None/None/None////";
}
// something that is no pathname
S notPath(Case &c, Ctl &k) { int how = (int)c.s.draw(9); S e = k.names.empty() ? S("/A/B/C////") : c.s.pick(k.names); switch (how) { case 0: return ""; case 1: return "no slashes"; case 2: return "/A/B/C/"; case 3: return e.substr(0, e.size() - 1); case 4: return e.substr(1); case 5: return "/A/" + S(400 + c.s.draw(400), 'b') + "/C////"; case 6: return S(100 + c.s.draw(500), 'x'); case 7: return "/"; default: return e + "/"; } }
S known(Case &c, Ctl &k, int type = 0, bool primary = false) { std::vector<S> v; for (auto &e : k.snap) if ((!type || e.second.type / 10 == type / 10) && (!primary || !e.second.alias)) v.push_back(e.second.name); return v.empty() ? S() : c.s.pick(v); }
const char *badDate(Case &c) { return c.s.pick({"", "32Jan2000", "garbage", "01Foo2000", "30Feb2001", "-1", "99/99/9999", "01Jan", "%s%s%n", "0000", "JANUARY"}); }
const char *badTime(Case &c) { return c.s.pick({"", "2561", "abc", "-0100", "9999999999", "%n"}); }

struct R { int st = 0; bool must = false; bool reader = false, sorts = false; S what; };

// the store of a series with something wrong; must: certainly to be refused
R badSeries(Case &c, Ctl &k) {
  R r; bool irr = c.s.chance(40), dbl = c.s.chance(40); int n = 1 + (int)c.s.size(200); S path = fmt("/Basin/Loc%d/Flow//%s/V%d/", (int)c.s.draw(2), irr ? "IR-Month" : "1Hour", (int)c.s.draw(3)); if (c.s.chance(30)) path = fmt("/New/Loc/Flow//%s/x/", irr ? "IR-Year" : "15Minute");
  int wrong = (int)c.s.draw(15); std::vector<double> v = genValues(c, n, true); std::vector<float> fv(v.begin(), v.end()); std::vector<int> t; for (int i = 0; i < n; i++) t.push_back(1440 * 36525 + i * 60 + (int)c.s.draw(3)); std::vector<int> q(4 * n, 3); std::vector<char> cn; for (int i = 0; i < n; i++) cn.push_back('a'), cn.push_back(0);
  const char *date = "02Jan2000", *time = "0100"; int flag = (int)c.s.draw(irr ? 2 : 5); S units = "CFS", type = "INST-VAL"; bool early = false;
  if (wrong == 0) date = badDate(c), r.what = fmt("start date \"%s\"", date);
  else if (wrong == 1) time = badTime(c), r.what = fmt("start time \"%s\"", time);
  else if (wrong == 2) { S e = c.s.pick(std::vector<S>{"7Minute", "1Foo", "", "IR-Foo", "IR-", "0Hour", "5Hour", "-1Day", "1", "~", "~7Minute", "1Hourly", "99Year", "%s%n"}); path = "/Basin/Loc0/Flow//" + e + "/V0/"; r.what = "E part \"" + e + "\""; r.must = e != "" && e != "1Hourly" && e[0] != '~' && e != "1" && e != "IR-"; }
  else if (wrong == 3) { path = noTarget(c); r.what = "path \"" + path + "\""; }
  else if (wrong == 4) { r.what = "number of values"; }
  else if (wrong == 5) { r.what = "no values"; }
  else if (wrong == 6) { if (irr && n > 1) { int j = (int)c.s.pick({n - 1, 1, n - 1, 1 + (int)c.s.draw(n - 2)}); int h = (int)c.s.draw(3); if (h == 0) std::swap(t[0], t[n - 1]); else if (h == 1) std::swap(t[j - 1], t[j]); else if (h == 2) t[j] = t[j - 1] - 1 - (int)c.s.draw(2000); else t[j - 1] = t[n - 1] + 1 + (int)c.s.draw(50000); r.must = !std::is_sorted(t.begin(), t.end()); } r.what = irr ? "times out of order" : "plain"; }
  else if (wrong == 7) { path = known(c, k); if (path.empty()) path = "/a/b/c////"; r.what = "path of \"" + path + "\""; }
  else if (wrong == 8) { r.what = "quality and notes sizes"; }
  else if (wrong == 9) { flag = c.s.pick({5, 9, -1, 11, 100, -7}); r.what = fmt("storage flag %d", flag); }
  else if (wrong == 10) { r.what = "no times or date"; early = true; }
  else if (wrong == 11) { units = S(c.s.pick({60, 300, 2000}), 'u'); type = c.s.pick(std::vector<S>{"", "NO-TYPE", S(500, 't'), "%n%s"}); r.what = "units and type"; }
  else if (wrong == 12) { r.what = "profile without depths"; }
  else if (wrong == 13) { path = fmt("/Basin/Loc0/Elev//%s/V0/", irr ? "IR-Month" : "1Hour"); units = "bananas"; r.what = "vertical datum"; }
  else r.what = "offset date part";
  zStructTimeSeries *s;
  if (early) s = zstructTsNew(path.c_str());
  else if (irr) s = dbl ? zstructTsNewIrregDoubles(path.c_str(), v.data(), n, t.data(), 60, "31Dec1899", units.c_str(), type.c_str()) : zstructTsNewIrregFloats(path.c_str(), fv.data(), n, t.data(), 60, wrong == 0 ? date : "31Dec1899", units.c_str(), type.c_str());
  else s = dbl ? zstructTsNewRegDoubles(path.c_str(), v.data(), n, date, time, units.c_str(), type.c_str()) : zstructTsNewRegFloats(path.c_str(), fv.data(), n, date, time, units.c_str(), type.c_str());
  if (!s) { r.st = -999; r.must = false; return r; }
  S u2 = units, ty2 = type;
  if (irr && wrong != 0) { s->julianBaseDate = 0; }
  if (early) { s->numberValues = n; s->units = &u2[0]; s->type = &ty2[0]; if (dbl) s->doubleValues = v.data(); else s->floatValues = fv.data(); }
  if (wrong == 4) { s->numberValues = c.s.pick({0, -1, -5}); r.must = true; r.what += fmt(" %d", s->numberValues); }
  if (wrong == 5) { s->floatValues = 0; s->doubleValues = 0; r.must = false; }
  if (wrong == 8) { int w = (int)c.s.draw(5); if (w == 0) s->quality = q.data(), s->qualityElementSize = c.s.pick({0, -1}); else if (w == 1) s->inotes = q.data(), s->inoteElementSize = c.s.pick({0, -3}); else if (w == 2) s->inotes = q.data(), s->inoteElementSize = 1, s->cnotes = cn.data(), s->cnotesLengthTotal = (int)cn.size(); else if (w == 3) s->cnotes = cn.data(), s->cnotesLengthTotal = c.s.pick({0, -1}); else s->qualityElementSize = 2; r.what += fmt(" %d", w); }
  if (wrong == 12) { s->profileDepthsNumber = c.s.pick({0, -1, 2}); if (c.s.chance(50)) { s->floatProfileDepths = fv.data(); s->profileDepthsNumber = 0; } if (c.s.chance(50)) s->floatProfileValues = fv.data(), s->profileDepthsNumber = 1; if (!s->floatProfileDepths && !s->floatProfileValues) s->floatProfileDepths = fv.data(), s->profileDepthsNumber = 1, s->floatProfileValues = 0; }
  c.note("storing %s series \"%.200s\" of %d%s values, flag %d: %s", irr ? "an irregular" : "a regular", path.c_str(), s->numberValues, dbl ? " double" : "", flag, r.what.substr(0, 300).c_str());
  r.st = ztsStore(k.d.ifltab, s, flag); r.what = "storing a series with wrong " + r.what.substr(0, 300);
  if (wrong == 7) { auto it = k.snap.find(up(path)); int ty = it == k.snap.end() ? 0 : it->second.type; (void)ty; }
  if (early) s->units = s->type = 0; if (!s->allocated[zSTRUCT_TS_floatValues]) s->floatValues = 0; if (!s->allocated[zSTRUCT_TS_doubleValues]) s->doubleValues = 0;
  s->quality = 0; s->inotes = 0; s->cnotes = 0; s->floatProfileDepths = 0; s->floatProfileValues = 0;
  zstructFree(s); return r;
}
R badPaired(Case &c, Ctl &k) {
  R r; int no = (int)c.s.range(1, 12), nc = (int)c.s.range(1, 4); auto o = genValues(c, no, true), v = genValues(c, no * nc, true); std::vector<float> fo(o.begin(), o.end()), fv(v.begin(), v.end()); bool dbl = c.s.chance(40); o.resize(4000, 1), v.resize(4000, 1), fo.resize(4000, 1), fv.resize(4000, 1); /* part of a curve may mean as many values as are stored */ S path = fmt("/Basin/Loc%d/Stage-Flow///V%d/", (int)c.s.draw(2), (int)c.s.draw(3)); int wrong = (int)c.s.draw(8), flag = c.s.pick({0, 0, 1, 2, 10, 11, 12});
  if (wrong == 0) path = noTarget(c); else if (wrong == 1) { path = known(c, k); if (path.empty()) path = "/a/b/c////"; }
  zStructPairedData *p = dbl ? zstructPdNewDoubles(path.c_str(), o.data(), v.data(), no, nc, "FT", "UNT", "CFS", "UNT") : zstructPdNewFloats(path.c_str(), fo.data(), fv.data(), no, nc, "FT", "UNT", "CFS", "UNT"); std::vector<char> lab(nc * 4, 0);
  if (wrong == 2) { p->numberOrdinates = c.s.pick({0, -1}); r.must = false; } else if (wrong == 3) p->numberCurves = c.s.pick({0, -1}); else if (wrong == 4) { if (c.s.chance(50)) p->floatOrdinates = 0, p->doubleOrdinates = 0; else p->floatValues = 0, p->doubleValues = 0; }
  else if (wrong == 5) { flag = c.s.pick({3, 9, -1, 13, 100}); } else if (wrong == 6) { p->startingCurve = c.s.pick({0, 1, 2, 9, -1}); p->endingCurve = p->startingCurve; p->startingOrdinate = c.s.pick({0, 1, 3, 99, -2}); p->endingOrdinate = p->startingOrdinate; p->numberOrdinates = 1; p->numberCurves = 1; }
  else if (wrong == 7) { p->numberOrdinatesInStruct = c.s.pick({-1, 0, 1}); p->numberCurvesInStruct = 1; p->labels = lab.data(); p->labelsLength = c.s.pick({0, -1, 1}); }
  r.what = fmt("storing paired data (wrong %d)", wrong); c.note("%s \"%.200s\" %dx%d flag %d, curves %d..%d ordinates %d..%d", r.what.c_str(), path.c_str(), p->numberOrdinates, p->numberCurves, flag, p->startingCurve, p->endingCurve, p->startingOrdinate, p->endingOrdinate);
  r.st = zpdStore(k.d.ifltab, p, flag); if (wrong == 7) p->labels = 0; zstructFree(p); return r;
}
R badOther(Case &c, Ctl &k) {
  R r; int kind = (int)c.s.draw(7); S path = c.s.chance(40) ? known(c, k) : c.s.chance(50) ? noTarget(c) : S("/New/one////x/"); auto it = k.snap.find(up(path)); int have = it == k.snap.end() ? 0 : it->second.type;
  switch (kind) {
  case 0: { zStructText *t = zstructTextNew(path.c_str()); S s = "some text"; int w = (int)c.s.draw(5); if (w == 1) t->textString = &s[0], t->numberTextChars = 0; else if (w == 2) t->textString = &s[0], t->numberTextChars = -1; else if (w == 3) t->textTable = &s[0], t->numberTableChars = (int)s.size(), t->numberRows = c.s.pick({0, -1}), t->numberColumns = 1; else if (w == 4) t->textString = &s[0], t->numberTextChars = (int)s.size(); r.what = fmt("storing text (wrong %d) \"%.200s\"", w, path.c_str()); r.must = w == 4 && have && have / 100 != 3; c.note("%s", r.what.c_str()); r.st = ztextStore(k.d.ifltab, t); t->textString = t->textTable = 0; zstructFree(t); break; }
  case 1: { zStructArray *a = zstructArrayNew(path.c_str()); int v[4] = {1, 2, 3, 4}; int w = (int)c.s.draw(4); if (w == 1) a->intArray = v, a->numberIntArray = c.s.pick({0, -1, -4}); else if (w == 2) a->intArray = v, a->numberIntArray = 4; else if (w == 3) a->floatArray = (float *)v, a->numberFloatArray = c.s.pick({0, -1}); r.what = fmt("storing an array (wrong %d) \"%.200s\"", w, path.c_str()); r.must = w == 2 && have && have / 10 != 9; c.note("%s", r.what.c_str()); r.st = zarrayStore(k.d.ifltab, a); a->intArray = 0; a->floatArray = 0; zstructFree(a); break; }
  case 2: { int type = c.s.pick({300, 310, 999, 90, 600, 20}); RawRec q = genRec(c, type, 40); if (have / 100 == 1) type = q.type = have + 50; r.what = fmt("writing a record of type %d over type %d \"%.200s\"", type, have, path.c_str()); zStructTransfer *t = zstructTransferNew(path.c_str(), 0); int w = (int)c.s.draw(4); std::vector<int> b(80, 5); t->dataType = type; t->values1 = b.data(); t->values1Number = w == 0 ? 10 : w == 1 ? -3 : 0; if (w == 2) t->internalHeader = b.data(), t->internalHeaderNumber = -2; if (w == 3) t->userHeader = b.data(), t->userHeaderNumber = -2; c.note("%s w%d", r.what.c_str(), w); bool skip = type >= 100 && type < 200 && w == 0; r.st = skip ? -999 : zwrite(k.d.ifltab, t); t->values1 = t->internalHeader = t->userHeader = 0; zstructFree(t); break; }
  case 3: { S f = c.s.pick(std::vector<S>{"/nonexistent/file", c.dir + "/absent", "", c.dir}); bool text = c.s.chance(50); r.what = (text ? "storing text from file \"" : "storing binary from file \"") + f + "\""; r.must = true; c.note("%s", r.what.c_str()); r.st = text ? ztextStoreFromFile(k.d.ifltab, path.c_str(), f.c_str()) : zbinaryStoreFromFile(k.d.ifltab, path.c_str(), f.c_str()); break; }
  case 4: { zStructLocation *l = zstructLocationNew(path.c_str()); if (!l) { r.st = -999; break; } l->xOrdinate = c.s.pick({0, 5, 500}); r.what = "storing a location \"" + path.substr(0, 200) + "\""; c.note("%s", r.what.c_str()); r.st = zlocationStore(k.d.ifltab, l, (int)c.s.draw(2)); zstructFree(l); break; }
  case 5: { zStructSpatialGrid *z = zstructSpatialGridNew(path.c_str()); int w = (int)c.s.draw(5); z->_structVersion = VERSION_100; z->_type = DATA_TYPE_SGT; z->_numberOfCellsX = w == 1 ? 0 : w == 2 ? -4 : 2; z->_numberOfCellsY = 2; float dat[4] = {1, 2, 3, 4}; z->_compressionMethod = w == 3 ? 12345 : ZLIB_COMPRESSION; z->_data = w == 4 ? 0 : dat; auto one = [](float f) { float *p = (float *)malloc(4); *p = f; return (void *)p; }; z->_minDataValue = one(0); z->_maxDataValue = one(9); z->_meanDataValue = one(4); z->_numberOfRanges = 2; z->_rangeLimitTable = calloc(2, 4); z->_numberEqualOrExceedingRangeLimit = (int *)calloc(2, 4); z->_storageDataType = GRID_FLOAT; z->_dataUnits = strdup("mm"); z->_srsName = strdup("x"); z->_srsDefinition = strdup("x"); z->_timeZoneID = strdup("UTC"); z->_dataSource = strdup("x"); r.what = fmt("storing a grid (wrong %d) \"%.200s\"", w, path.c_str()); c.note("%s", r.what.c_str()); r.st = zspatialGridStore(k.d.ifltab, z); z->_data = 0; zstructFree(z); break; }
  case 6: { zStructSpatialTin *z = zstructSpatialTinNew(path.c_str()); S w = "x"; z->SpatialReferenceSystem = z->SRSName = z->SRSUnits = z->units = z->type = z->timeZoneName = &w[0]; z->numberPoints = c.s.pick({0, -1, -5}); z->connectTableLen = c.s.pick({0, -1}); z->pointLabelLen = c.s.pick({0, -7}); r.what = "storing a tin without points"; c.note("%s", r.what.c_str()); r.st = zspatialTinStore(k.d.ifltab, z); z->SpatialReferenceSystem = z->SRSName = z->SRSUnits = z->units = z->type = z->timeZoneName = 0; zstructFree(z); break; }
  }
  return r;
}
R badName(Case &c, Ctl &k) { // operations on a name that is not there, or not usable
  R r; bool unknown = c.s.chance(60); S p = unknown ? unknownPath(c, k) : c.s.chance(50) ? notPath(c, k) : known(c, k), q = c.s.chance(50) ? S("/New/name////x/") : known(c, k); if (!unknown && c.s.chance(50)) { q = c.s.chance(60) ? noTarget(c) : p; p = known(c, k); } int op = (int)c.s.draw(10); auto it = k.snap.find(up(p)); bool there = it != k.snap.end(); long long *t = k.d.ifltab;
  auto say = [&](const char *w) { r.what = fmt("%s \"%.200s\"", w, p.c_str()); c.note("%s -> \"%.200s\"", r.what.c_str(), q.c_str()); };
  switch (op) {
  case 0: if (there && c.s.chance(80)) { r.st = -999; break; } say("deleting"); r.st = c.s.chance(50) ? zdelete(t, p.c_str()) : hec_dss_delete((dss_file *)t, p.c_str()); r.must = !there; break;
  case 1: { bool alias = there && it->second.alias; auto jt = k.snap.find(up(q)); if (there && it->second.type / 100 != 1 && jt != k.snap.end() && jt->second.alias) r.must = true; say("renaming"); r.st = zrename(t, p.c_str(), q.c_str()); r.must |= !there || !isPath(q); (void)alias; break; }
  case 2: say("undeleting"); r.st = zundelete(t, p.c_str()); r.must = there; break;
  case 3: say("duplicating"); r.st = zduplicateRecord(t, p.c_str(), q.c_str()); r.must = !there; break;
  case 4: say("copying"); r.st = zcopyRecord(t, k.other.open ? k.other.ifltab : t, p.c_str(), q.c_str()); r.must = !there; break;
  case 5: say("adding an alias for"); { bool taken = k.snap.count(up(q)); r.st = zaliasAdd(t, p.c_str(), q.c_str()); r.must = !there || taken || !isPath(q); } break;
  case 6: say("removing the alias"); r.st = zaliasRemove(t, p.c_str()); r.must = !there || !it->second.alias; break;
  case 7: { say("removing aliases of"); int n = zaliasRemoveAll(t, p.c_str()); r.st = n == 0 ? -1 : n > 0 ? 0 : n; r.must = !there; break; }
  case 8: say("deleting the location"); r.st = zlocationDelete(t, p.c_str()); r.must = false; break;
  case 9: { if (!k.other.open) { r.st = -999; break; } p = unknown ? unknownPath(c, k) : p; there = k.osnap.count(up(p)); say("copying from another file"); r.st = zcopyRecord(k.other.ifltab, t, p.c_str(), q.c_str()); r.must = !there; break; }
  }
  if (!isPath(p)) r.must = false;
  return r;
}
// a text record really written as one (others only have its type)
bool sane(const RawRec &q) { return q.ih.size() >= 5 && q.ih[0] >= 0 && q.ih[1] >= 0 && q.ih[2] >= 0 && q.ih[0] <= (int)q.v1.size() * 4 && q.ih[1] <= (int)q.v2.size() * 4 && q.ih[2] <= (int)q.h2.size() * 4; }
// anything that only reads
R reads(Case &c, Ctl &k) {
  R r; r.reader = true; S p = c.s.chance(70) ? known(c, k) : c.s.chance(60) ? unknownPath(c, k) : notPath(c, k); long long *t = k.d.ifltab; auto it = k.snap.find(up(p)); bool there = it != k.snap.end(); int type = there ? it->second.type : 0; int op = (int)c.s.draw(24); if (there ? type >= 300 && type < 320 && !sane(it->second.r) : !isPath(p) && (op == 2 || op == 10 || op == 20)) op = 7; r.what = fmt("reading operation %d of \"%.200s\"", op, p.c_str()); c.note("%s", r.what.c_str());
  auto typed = [&](bool right) { r.must = !right; };
  switch (op) {
  case 0: { zStructTimeSeries *s = c.s.chance(30) ? zstructTsNewTimes(p.c_str(), badDate(c), badTime(c), badDate(c), badTime(c)) : c.s.chance(50) ? zstructTsNewTimes(p.c_str(), "02Jan2000", "0100", "05Jan2000", "2400") : zstructTsNew(p.c_str()); if (!s) break; r.st = ztsRetrieve(t, s, c.s.pick({0, 0, -1, 1, 2, 3, 9, -9}), c.s.pick({0, 1, 2, 5}), (int)c.s.draw(2)); if (there && type / 100 != 1 && up(p).find("/NEW/ONE/FLOW//")) r.must = true; zstructFree(s); break; }
  case 1: { zStructPairedData *s = zstructPdNew(p.c_str()); r.st = zpdRetrieve(t, s, c.s.pick({0, 1, 2, 7})); typed(there && type / 10 == 20); zstructFree(s); break; }
  case 2: { zStructText *s = zstructTextNew(p.c_str()); r.st = ztextRetrieve(t, s); typed(there && type / 10 == 30); zstructFree(s); break; }
  case 3: { zStructArray *s = zstructArrayNew(p.c_str()); r.st = zarrayRetrieve(t, s); typed(there && type / 10 == 9); zstructFree(s); break; }
  case 4: { zStructSpatialGrid *s = zstructSpatialGridNew(p.c_str()); r.st = zspatialGridRetrieve(t, s, (int)c.s.draw(2)); typed(there && type / 10 >= 40 && type / 10 < 45); zstructFree(s); break; }
  case 5: { zStructSpatialTin *s = zstructSpatialTinNew(p.c_str()); r.st = zspatialTinRetrieve(t, s, (int)c.s.draw(2)); typed(there && type / 10 == 45); zstructFree(s); break; }
  case 6: { zStructLocation *s = zstructLocationNew(p.c_str()); if (s) { r.st = zlocationRetrieve(t, s); zstructFree(s); } break; }
  case 7: { RawRec w; r.st = rawRead(k.d, p, w); r.must = !there; break; }
  case 8: { zStructCatalog *cat = zstructCatalogNew(); cat->boolIncludeDates = (int)c.s.draw(2); cat->boolGetCRCvalues = (int)c.s.draw(2); cat->statusWanted = c.s.pick({0, 1, 2, 11, 100, 55, -4}); S w = c.s.chance(50) ? S("/*/*/*/*/*/*/") : c.s.chance(50) ? notPath(c, k) : p; r.st = zcatalog(t, w.c_str(), cat, c.s.pick({0, 1, 2, 9})); r.sorts = true; if (r.st > 0) r.st = 0; zstructFree(cat); break; }
  case 9: r.st = zcheck(t, p.c_str()); r.must = !there; break;
  case 10: { S f = c.s.pick(std::vector<S>{"/nonexistent/dir/file", c.dir, c.dir + "/out.txt"}); r.st = ztextRetrieveToFile(t, p.c_str(), f.c_str()); r.must = !there || f != c.dir + "/out.txt"; break; }
  case 11: { S f = c.s.pick(std::vector<S>{"/nonexistent/dir/file", c.dir, c.dir + "/out.bin"}); spit(c.dir + "/out.bin", "x"); r.st = zbinaryRetrieveToFile(t, p.c_str(), f.c_str()); r.must = !there || f != c.dir + "/out.bin"; break; }
  case 12: { zStructRecordSize *s = zstructRecordSizeNew(p.c_str()); r.st = zgetRecordSize(t, s); r.must = !there; zstructFree(s); break; }
  case 13: { zStructRecordBasics *s = zstructRecordBasicsNew(p.c_str()); r.st = zgetRecordBasics(t, s); r.must = !there; zstructFree(s); break; }
  case 14: { int a, b, e, g, full = (int)c.s.draw(2); r.st = hec_dss_tsGetDateTimeRange((dss_file *)t, p.c_str(), full, &a, &b, &e, &g); r.must = there && !full && type / 100 != 1; break; }
  case 15: { int n, q; r.st = hec_dss_tsGetSizes((dss_file *)t, p.c_str(), c.s.chance(50) ? badDate(c) : "01Jan2000", "0100", c.s.chance(50) ? badDate(c) : "09Jan2000", "0100", &n, &q); break; }
  case 16: { char u[20], y[20]; r.st = hec_dss_tsRetrieveInfo((dss_file *)t, p.c_str(), u, sizeof u, y, sizeof y); r.must = there && type / 100 != 1; break; }
  case 17: { char n[300]; r.st = zaliasGetPrimary(t, p.c_str(), n, sizeof n); r.must = !there; break; }
  case 18: { long long x = zgetLastWriteTimeRec(t, p.c_str()); (void)x; r.st = 0; break; }
  case 19: { unsigned crc; crc = zgetDataCRC(t, p.c_str(), (int)c.s.draw(2)); (void)crc; break; }
  case 20: { char b[200]; r.st = hec_dss_textRetrieve((dss_file *)t, p.c_str(), b, sizeof b); typed(there && type / 10 == 30); break; }
  case 21: { int a, b, e; r.st = hec_dss_arrayRetrieveInfo((dss_file *)t, p.c_str(), &a, &b, &e); typed(there && type / 10 == 9); break; }
  case 22: { int n = (int)k.snap.size() + 2; std::vector<char> b(400 * n); std::vector<int> ty(n); r.st = hec_dss_catalog((dss_file *)t, b.data(), ty.data(), c.s.chance(50) ? "" : p.c_str(), n, 400); if (r.st > 0) r.st = 0; break; }
  case 23: { r.st = hec_dss_recordType((dss_file *)t, p.c_str()); int e = hec_dss_dataType((dss_file *)t, p.c_str()); if (r.st > 0) r.st = 0; (void)e; break; }
  }
  if (!isPath(p)) r.must = false;
  return r;
}
// the same for invalid calls of the simplified interface
R badSimple(Case &c, Ctl &k) {
  R r; dss_file *h = (dss_file *)k.d.ifltab; int op = (int)c.s.draw(5); int n = (int)c.s.range(1, 20); std::vector<double> v(n, 3.5); std::vector<int> q(n, 1), t(n); for (int i = 0; i < n; i++) t[i] = 1000 * i; S path = c.s.chance(40) ? known(c, k) : c.s.chance(40) ? noTarget(c) : S("/New/one/Flow//1Hour/x/"); const char *date = c.s.chance(50) ? badDate(c) : "03Jan2000", *time = c.s.chance(50) ? badTime(c) : "0200"; int num = c.s.chance(40) ? c.s.pick({0, -1}) : n;
  r.what = fmt("simple store %d of \"%.200s\" (%d values, date \"%s\" \"%s\")", op, path.c_str(), num, date, time); c.note("%s", r.what.c_str());
  switch (op) {
  case 0: r.st = hec_dss_tsStoreRegular(h, path.c_str(), date, time, v.data(), num, q.data(), c.s.chance(50) ? n : 0, (int)c.s.draw(2), "CFS", "INST-VAL", "UTC", c.s.pick({0, 3, 77})); r.must = num <= 0; break;
  case 1: r.st = hec_dss_tsStoreIregular(h, path.c_str(), c.s.chance(50) ? badDate(c) : "01Jan2000", t.data(), 60, v.data(), num, q.data(), 0, (int)c.s.draw(2), "CFS", "INST-VAL", "", 0); r.must = num <= 0; break;
  case 2: r.st = hec_dss_pdStore(h, path.c_str(), v.data(), n, v.data(), n, num, 1, "FT", "UNT", "CFS", "UNT", "", 0, ""); break;
  case 3: { int a[3] = {1, 2, 3}; float f[2] = {1, 2}; double d[1] = {2}; bool none = c.s.chance(50); r.st = hec_dss_arrayStore(h, path.c_str(), a, none ? 0 : 3, f, none ? 0 : 2, d, none ? c.s.pick({0, -1}) : 1); break; }
  case 4: r.st = hec_dss_textStore(h, path.c_str(), "some text", c.s.pick({0, -1, 5, 9})); break;
  }
  return r;
}

int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
void run(Case &c) {
  quiet(); gSleepDivisor = 1000; messages(c); Ctl k(c); k.f = c.dir + "/file.dss"; int hash, bin; genConfig(c, hash, bin); k.access = c.s.pick({0, 0, 2, 2, 3, 4}); int reclaim = c.s.pick({1, 1, 2, 3});
  int st = k.d.openFile(k.f, k.access, hash, bin); if (st) c.fail("creating gave %d", st);
  mixPopulate(c, k.d, 2 + (int)c.s.draw(16), 2, c.s.chance(15), reclaim); if (c.s.chance(30)) { k.d.close(); if ((st = k.d.openFile(k.f, k.access))) c.fail("opening again gave %d", st); if (reclaim > 1) zsetFile(k.d.ifltab, "reclaim", "", reclaim); }
  if (c.s.chance(30) && k.access != 2) { if ((st = k.other.openFile(c.dir + "/other.dss"))) c.fail("creating the other file gave %d", st); mixPopulate(c, k.other, 3, 2, false); k.osnap = snapshot(c, k.other, "other"); }
  k.take("after populating"); bool refusedAny = false, accepted = false; int n = 4 + (int)c.s.draw(24); S held = k.locks();
  for (int i = 0; i < n; i++) {
    S before; int group = (int)c.s.weighted({25, 12, 18, 22, 25, 10}); bool logw = group == 4 || c.s.chance(30);
    if (logw) before = slurp(k.f);
    int open0 = fds();
    R r = group == 0 ? badSeries(c, k) : group == 1 ? badPaired(c, k) : group == 2 ? badOther(c, k) : group == 3 ? badName(c, k) : group == 4 ? reads(c, k) : badSimple(c, k);
    if (r.st == -999) continue; if (int n1 = fds() - open0) c.fail("%s gave %d and left %d more files open", r.what.c_str(), r.st, n1); static const char *gn[] = {"series", "paired data", "other stores", "names", "reading", "simple interface"}; c.label("%s: %s", gn[group], r.st == 0 ? "accepted" : "refused"); c.note("  gave %d", r.st); c.evals(1);
    if (r.must && r.st == 0) c.fail("%s: reports success", r.what.c_str());
    if (r.reader && !r.sorts) { S after = slurp(k.f); if (after != before) { size_t x = 0; while (x < before.size() && x < after.size() && before[x] == after[x]) x++; c.fail("%s: the file has changed, from word %zu (%zu bytes, before %zu)", r.what.c_str(), x / 8, after.size(), before.size()); } }
    if (r.st != 0 || r.reader) {
      if (r.st) refusedAny = true; if ((group == 0 || group == 5) && -r.st / 100 % 100 == 40) { k.take("after a series met other data in one of its blocks"); accepted = true; continue; } Snap s = snapshot(c, k.d, "after a refused operation"); S x = snapsDiff(k.snap, s); if (!x.empty()) c.fail("%s gave %d, and then: %s", r.what.c_str(), r.st, x.c_str());
      long long a = k.nrec, b = k.npri, e = k.nali; k.counts(); if (a != k.nrec || b != k.npri || e != k.nali) c.fail("%s gave %d, and then the file reports %lld records (%lld primary, %lld aliases), before %lld (%lld, %lld)", r.what.c_str(), r.st, k.nrec, k.npri, k.nali, a, b, e);
      if (k.access == 2 && c.s.chance(40)) { S l = k.locks(); if (l != held) c.fail("%s gave %d, and then the file is locked (%s, before \"%s\")", r.what.c_str(), r.st, l.c_str(), held.c_str()); }
      if (c.s.chance(25)) mixStructure(c, k.d, r.what.c_str());
    } else { accepted = true; if (c.s.chance(40)) mixStructure(c, k.d, r.what.c_str()); k.take("after an accepted operation"); if (k.other.open) k.osnap = snapshot(c, k.other, "other"); continue; }
    if (c.s.chance(25)) { // the handle remains usable
      int kind = (int)c.s.draw(MK_N - 1); S p = mixPath(kind, 3, (int)c.s.draw(3)), desc; int q = mixStore(c, k.d, kind, p, desc, false); c.note("store %s \"%s\" %s gave %d", mixName(kind), p.c_str(), desc.c_str(), q); if (q && accepted && -q / 100 % 100 == 40) continue; // other data had been put there
      if (q) c.fail("after %s (%d), storing %s \"%s\" gave %d", r.what.c_str(), r.st, mixName(kind), p.c_str(), q);
      Snap was = k.snap; k.take("after a store"); for (auto &e : was) { auto jt = k.snap.find(e.first); if (jt == k.snap.end()) c.fail("after storing \"%s\", \"%s\" is gone", p.c_str(), e.second.name.c_str()); bool shared = e.second.primary.find("/LOC3/") != S::npos; for (auto &a : was) if (a.second.alias && a.second.primary == e.first && a.first.find("/LOC3/") != S::npos) shared = true; for (auto &a : was) if (e.second.alias && a.second.alias && a.second.primary == e.second.primary && a.first.find("/LOC3/") != S::npos) shared = true; if (!shared && e.second.name.find("/Loc3/") == S::npos) { S x = snapDiff(e.second, jt->second); if (!x.empty()) c.fail("after storing \"%s\", \"%s\": %s", p.c_str(), e.second.name.c_str(), x.c_str()); } }
    }
  }
  if (refusedAny) c.nontrivial();
  mixStructure(c, k.d, "at the end"); if ((st = k.d.close())) c.fail("closing gave %d", st); if ((st = k.d.openFile(k.f, 1))) c.fail("opening at the end gave %d", st); Snap s = snapshot(c, k.d, "after opening again"); S x = snapsDiff(k.snap, s); if (!x.empty()) c.fail("after opening again: %s", x.c_str()); k.d.close(); if (k.other.open) k.other.close();
}
eng::Reg r({"C27", "at least one operation of the case was refused", run, 3000, 60000, "exploration", {"arguments that the interface cannot check (buffers shorter than the stated sizes, null structures) are not passed", "of a series over several blocks the blocks before one that holds other data may have been stored"}});
}
