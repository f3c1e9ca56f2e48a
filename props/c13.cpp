// C13: catalogues of a file after a random history, against the set of records
// the history leaves: wildcards, status, type and time filters, sorting.
#include "world.hpp"
#include "ts.hpp"
#include <climits>
#include <fcntl.h>
extern "C" int zcollectionCat(long long *ifltab, const char *seedPathname, zStructCatalog *catStruct);
namespace {
typedef std::string S;
struct Ent { S path; int type; bool alias; int d1, d2; };
typedef std::map<S, Ent> Ents;
struct Row { S path; int type; long long t; int d1, d2; unsigned crc; };
static std::vector<S> parts(const S &p) { std::vector<S> v; size_t i = 1; while (i <= p.size() && v.size() < 6) { size_t j = p.find('/', i); if (j == S::npos) j = p.size(); v.push_back(p.substr(i, j - i)); i = j + 1; } v.resize(6); return v; }
static bool matchPart(const S &pat, const S &s) {
  if (pat == "*") return true;
  bool b = pat.size() > 1 && pat[0] == '*', e = pat.size() > 1 && pat.back() == '*';
  S x = pat.substr(b ? 1 : 0, pat.size() - (b ? 1 : 0) - (e ? 1 : 0));
  if (b && e) return s.find(x) != S::npos;
  if (b) return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0;
  if (e) return s.compare(0, x.size(), x) == 0;
  return s == x;
}
static S seqOut(const S &f) { if (f.size() < 9 || f[0] != 'C' || f[1] != ':') return f; size_t k = f.find('|'); if (k == S::npos) return f; S r = f; for (size_t i = 2; i < k; i++) r[i] = 'X'; return r; }
static bool match(const S &wild, const S &path, bool coll) {
  auto w = parts(up(wild)), p = parts(up(path));
  for (int i = 0; i < 6; i++) { S a = w[i], b = p[i]; if (i == 5 && coll && a.find('|') != S::npos && b.find('|') != S::npos) { a = seqOut(a); b = seqOut(b); } if (!matchPart(a, b)) return false; }
  return true;
}
struct Filter { S wild; bool useWild = false; int sorted = 0, status = 0, t0 = 0, t1 = 0, tflag = 0; long long time = 0; bool dates = false, crc = false; };
static S fstr(const Filter &f) { return fmt("wild \"%s\" sort %d status %d types %d-%d time %lld flag %d", f.useWild ? f.wild.c_str() : "", f.sorted, f.status, f.t0, f.t1, f.time, f.tflag); }
static std::vector<Row> get(Case &c, Dss &d, const Filter &f) {
  zStructCatalog *k = zstructCatalogNew();
  k->statusWanted = f.status; k->typeWantedStart = f.t0; k->typeWantedEnd = f.t1; k->lastWriteTimeSearch = f.time; k->lastWriteTimeSearchFlag = f.tflag; k->boolIncludeDates = f.dates; k->boolGetCRCvalues = f.crc;
  int n = zcatalog(d.ifltab, f.useWild ? f.wild.c_str() : 0, k, f.sorted);
  if (n < 0) c.fail("the catalogue (%s) returned %d", fstr(f).c_str(), n);
  if (n != k->numberPathnames) c.fail("the catalogue (%s) returned %d but lists %d", fstr(f).c_str(), n, k->numberPathnames);
  std::vector<Row> r;
  for (int i = 0; i < n; i++) {
    if (!k->pathnameList[i]) c.fail("the catalogue (%s) has no pathname at %d of %d", fstr(f).c_str(), i, n);
    Row x; x.path = k->pathnameList[i]; x.type = k->recordType[i]; x.t = k->lastWriteTimeRecord[i]; x.d1 = f.dates && k->startDates ? k->startDates[i] : -1; x.d2 = f.dates && k->endDates ? k->endDates[i] : -1; x.crc = f.crc && k->crcValues ? k->crcValues[i] : 0; r.push_back(x);
  }
  zstructFree(k); return r;
}
static S pad(const S &s, size_t n) { S r = s; r.resize(std::max(n, s.size()), ' '); return r; }
static int cmpS(const S &a, const S &b) { size_t n = std::max(a.size(), b.size()); return pad(a, n).compare(pad(b, n)); }
static int klass(int t) { return t >= 100 && t < 200 ? 1 : t >= 400 && t < 500 ? 2 : 0; }
static long long isoOf(const S &d) { int j = dateToJulian(d.c_str()); return j == UNDEFINED_TIME ? LLONG_MIN : j; }
// the documented order: A, B, C, then F, E (by length), D (by date) for time series; D, F, E for grids; D, E, F for all else
static int cmpRows(const Row &a, const Row &b, bool &known) {
  known = true; auto p = parts(a.path), q = parts(b.path); int r;
  for (int i = 0; i < 3; i++) if ((r = cmpS(p[i], q[i]))) return r;
  if (klass(a.type) != klass(b.type)) { known = false; return 0; }
  if (klass(a.type) == 1) {
    if ((r = cmpS(p[5], q[5]))) return r;
    if (up(p[4]) != up(q[4])) { int i1 = 0, i2 = 0, op = EPART_TO_SECONDS; char e1[80], e2[80]; snprintf(e1, 80, "%s", p[4].c_str()); snprintf(e2, 80, "%s", q[4].c_str()); int s1 = ztsGetStandardInterval(7, &i1, e1, sizeof e1, &op); op = EPART_TO_SECONDS; int s2 = ztsGetStandardInterval(7, &i2, e2, sizeof e2, &op); if (s1 == STATUS_NOT_OKAY || s2 == STATUS_NOT_OKAY || i1 == i2 || i1 < 0 || i2 < 0) { known = false; return 0; } return i1 < i2 ? -1 : 1; }
    long long a1 = isoOf(p[3]), b1 = isoOf(q[3]); if (a1 == LLONG_MIN || b1 == LLONG_MIN) { known = false; return 0; }
    return a1 < b1 ? -1 : a1 > b1;
  }
  if (klass(a.type) == 2) {
    bool da = p[3].size() == 14 && p[3][9] == ':', db = q[3].size() == 14 && q[3][9] == ':';
    if (da != db) { known = false; return 0; }
    if (!da) { if ((r = cmpS(p[3], q[3]))) return r; }
    else { long long x = isoOf(p[3].substr(0, 9)) * 10000 + atoi(p[3].c_str() + 10), y = isoOf(q[3].substr(0, 9)) * 10000 + atoi(q[3].c_str() + 10); if (x != y) return x < y ? -1 : 1; }
    if ((r = cmpS(p[5], q[5]))) return r; return cmpS(p[4], q[4]);
  }
  for (int i = 3; i < 6; i++) if ((r = cmpS(p[i], q[i]))) return r;
  return 0;
}
struct K {
  Case &c; World w; Ents own; // aliases, their primaries and series, which the history does not touch
  std::set<S> prims, tsdead; int nts = 0;
  K(Case &cc) : c(cc), w(cc) {}
  Ents all() { Ents e = own; for (auto &x : w.live) e[x.first] = Ent{x.first, x.second.type, false, 0, 0}; return e; }
  void addPrimary() {
    S p = fmt("/ALIASED/P%d/X//%s/F/", (int)prims.size(), c.s.chance(30) ? S(40, 'e').c_str() : "E"); RawRec r = genRec(c, c.s.pick({300, 450, 90}), 50);
    c.note("primary %s type %d", p.c_str(), r.type); int st = rawWrite(w.d, p, r); if (st) c.fail("write of \"%s\" returned %d", p.c_str(), st);
    for (auto &e : w.dead) w.reused.insert(e.first);
    own[up(p)] = Ent{p, r.type, false, 0, 0}; prims.insert(p);
  }
  void addAlias() {
    if (prims.empty()) addPrimary(); auto it = prims.begin(); std::advance(it, c.s.draw(prims.size())); S a = fmt("/ALIASED/%s/%s/%d///", c.s.pick({"A", "LONGER NAME", "Z"}), it->substr(10, 1).c_str(), (int)c.s.draw(12)); if (own.count(up(a))) return;
    c.note("alias %s of %s", a.c_str(), it->c_str()); int st = zaliasAdd(w.d.ifltab, it->c_str(), a.c_str()); if (st) c.fail("adding alias \"%s\" gave %d", a.c_str(), st);
    for (auto &e : w.dead) w.reused.insert(e.first);
    own[up(a)] = Ent{a, own[up(*it)].type, true, 0, 0};
  }
  void removeAlias() { for (auto it = own.begin(); it != own.end(); ++it) if (it->second.alias && c.s.chance(50)) { c.note("remove alias %s", it->first.c_str()); int st = zaliasRemove(w.d.ifltab, it->second.path.c_str()); if (st) c.fail("removing alias \"%s\" gave %d", it->first.c_str(), st); own.erase(it); return; } }
  void addTs() {
    bool irr = c.s.chance(30), dbl = c.s.chance(40); TsIn in; in.dbl = dbl; S a = fmt("/TS/%s/FLOW", c.s.chance(50) ? "LOC" : fmt("L%d", nts).c_str()), f = c.s.chance(40) ? "" : c.s.chance(60) ? S("OBS") : fmt("A LONGER VERSION %d", (int)c.s.draw(3)); nts++;
    std::map<S, std::vector<i64>> blocks; i64 day0 = cal::days(c.s.range(1890, 2050), (int)c.s.range(1, 12), (int)c.s.range(1, 28)); int n = (int)c.s.range(1, 900); const char *e;
    auto mon = [](int m) { static const char *k[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}; return k[m - 1]; };
    i64 y; int m, d;
    if (irr) { e = "IR-Month"; i64 t = day0 * cal::DAY + c.s.range(1, 1440) * 60; n = n % 40 + 1; for (int i = 0; i < n; i++) { in.times.push_back(t); in.v.push_back(i); cal::ymd(cal::fdiv(t - 1, cal::DAY), y, m, d); blocks[fmt("01%s%lld", mon(m), (long long)y)].push_back(cal::fdiv(t - 1, cal::DAY)); t += 60 * c.s.range(1, 30000); } }
    else { int mul = c.s.pick({3600, 86400}); e = mul == 3600 ? "1Hour" : "1Day"; in.start = (day0 + 1) * cal::DAY; for (int i = 0; i < n; i++) { in.v.push_back(i); i64 t = in.start + (i64)i * mul; cal::ymd(cal::fdiv(t - 1, cal::DAY), y, m, d); blocks[mul == 3600 ? fmt("01%s%lld", mon(m), (long long)y) : fmt("01JAN%lld", (long long)y)].push_back(cal::fdiv(t - 1, cal::DAY)); } }
    S p = a + "//" + e + "/" + f + "/"; for (auto &b : blocks) if (own.count(up(a + "/" + b.first + "/" + e + "/" + f + "/"))) return;
    c.note("series %s %d values from %lld", p.c_str(), n, (long long)(irr ? in.times[0] : in.start)); int st = tsStore(w.d, p, in); if (st) c.fail("storing series \"%s\" gave %d", p.c_str(), st);
    for (auto &x : w.dead) w.reused.insert(x.first);
    for (auto &b : blocks) { S q = up(a + "/" + b.first + "/" + e + "/" + f + "/"); own[q] = Ent{q, irr ? (dbl ? 115 : 110) : (dbl ? 105 : 100), false, (int)b.second.front(), (int)b.second.back()}; }
  }
  void renameTs() {
    std::vector<S> v; for (auto &x : own) if (x.second.type >= 100 && x.second.type < 200) v.push_back(x.first); if (v.empty()) return; S p = c.s.pick(v); auto a = parts(p);
    S f = c.s.chance(50) ? a[5] : c.s.pick({"REN", "", "A MUCH LONGER VERSION THAN BEFORE"}), b = c.s.chance(40) ? a[1] : fmt("REN%d", (int)c.s.draw(4)); S q = fmt("/TS/%s/FLOW/%s/%s/%s/", b.c_str(), c.s.chance(60) ? a[3].c_str() : c.s.pick({"", "01JAN1800", "X"}), c.s.chance(60) ? a[4].c_str() : c.s.pick({"", "1HOUR", "Y"}), f.c_str()), res = up(fmt("/TS/%s/FLOW/%s/%s/%s/", b.c_str(), a[3].c_str(), a[4].c_str(), f.c_str()));
    if (res == up(p)) return; c.note("rename series %s -> %s%s", p.c_str(), q.c_str(), own.count(res) ? " (exists)" : ""); int st = zrename(w.d.ifltab, p.c_str(), q.c_str()); if (st) c.fail("rename of \"%s\" to \"%s\" returned %d", p.c_str(), q.c_str(), st);
    if (own.count(res)) { tsdead.insert(res); } for (auto &x : w.dead) w.reused.insert(x.first); Ent e = own[p]; own.erase(p); e.path = res; own[res] = e; c.label("series renamed");
    if (zcheck(w.d.ifltab, res.c_str())) c.fail("after renaming \"%s\" to \"%s\", \"%s\" does not exist", p.c_str(), q.c_str(), res.c_str());
  }
  void addSpecial() { // collections, grids, long parts
    S p; int k = (int)c.s.draw(3); RawRec r = genRec(c, 300, 20);
    if (k == 0) p = fmt("/COLL/%s/X///C:%06d|%s/", c.s.pick({"A", "B"}), (int)c.s.draw(8), c.s.pick({"RUN", "RUN:2", "Q"}));
    else if (k == 1) { p = fmt("/SHG/B/%s/%02d%s%d:%02d%02d/%s/%s/", c.s.pick({"PRECIP", "T"}), (int)c.s.range(1, 28), c.s.pick({"JAN", "MAR", "DEC"}), (int)c.s.range(1995, 2003), (int)c.s.draw(23), (int)c.s.draw(59), c.s.chance(50) ? "" : "02JAN2000:0100", c.s.pick({"", "F", "C:000001|A"})); r.type = 450; }
    else { p = "/"; for (int i = 0; i < 6; i++) p += S((size_t)c.s.range(40, i < 4 ? 63 : 40), c.s.pick({'L', 'M', 'N'})) + "/"; }
    if (w.live.count(up(p))) return; w.addPath(p); w.opWrite(p, r, 0);
  }
  S genWild() {
    Ents e = all(); S base = "/A/B/C/D/E/F/"; if (!e.empty()) { auto it = e.begin(); std::advance(it, c.s.draw(e.size() - 1)); base = it->second.path; } auto p = parts(base); S r = "/"; bool low = c.s.chance(30);
    for (int i = 0; i < 6; i++) {
      S x = p[i], y; size_t n = x.size(), k = n ? c.s.draw(n) : 0;
      switch (c.s.weighted({45, 25, 10, 10, 8, 3, 3})) { case 0: y = "*"; break; case 1: y = x; break; case 2: y = x.substr(0, k) + "*"; break; case 3: y = "*" + x.substr(k); break; case 4: { size_t m = k < n ? c.s.draw(n - k) : 0; y = "*" + x.substr(k, m) + "*"; break; } case 5: break; default: y = c.s.pick({"A*", "*Z", "*AZ*", "AZ", "**", "*LONGER", "Y*", "*A LONG SUFFIX"}); }
      if (y == "/") y = "*"; if (low) for (auto &ch : y) ch = tolower(ch);
      r += y + "/";
    }
    return r;
  }
  void checkOne(Filter f) {
    Ents e = all(); std::vector<Row> r = get(c, w.d, f); S F = fstr(f); c.evals(1);
    std::map<S, int> seen; for (auto &x : r) seen[up(x.path)]++;
    if (f.status == 11 || f.status == 12) { // deleted entries: only deleted ones, and all whose entry is surely still there
      if (f.status == 12) return;
      for (auto &s : seen) { auto it = w.dead.find(s.first); bool ali = s.first.compare(0, 9, "/ALIASED/") == 0; if (tsdead.count(s.first)) continue; if (ali) c.fail("%s lists \"%s\", a removed alias", F.c_str(), s.first.c_str()); if (it == w.dead.end() || s.second > (int)it->second.size()) c.fail("%s lists \"%s\" %d times, deleted %zu times", F.c_str(), s.first.c_str(), s.second, it == w.dead.end() ? 0 : it->second.size()); if (f.useWild && !match(f.wild, s.first, f.sorted == 2)) c.fail("%s lists \"%s\", which does not match", F.c_str(), s.first.c_str()); }
      if (!w.reclaim && !f.t0 && !f.time) for (auto &x : w.dead) if (!w.reused.count(x.first) && !w.fragile.count(x.first) && !w.live.count(x.first) && (!f.useWild || match(f.wild, x.first, f.sorted == 2)) && !seen.count(x.first)) c.fail("%s does not list the deleted \"%s\"", F.c_str(), x.first.c_str());
    } else {
      auto want = [&](const Ent &x) { if (f.useWild && !match(f.wild, x.path, f.sorted == 2)) return false; if (f.status == 1 && x.alias) return false; if (f.status == 2 && !x.alias) return false; if (f.t0 && (x.type < f.t0 || x.type > f.t1)) return false; return true; };
      size_t n = 0;
      for (auto &x : r) { auto it = e.find(up(x.path)); if (it == e.end()) c.fail("%s lists \"%s\", which does not exist", F.c_str(), x.path.c_str()); if (seen[up(x.path)] > 1) c.fail("%s lists \"%s\" twice", F.c_str(), x.path.c_str());
        if (!want(it->second)) c.fail("%s lists \"%s\" of type %d%s, which does not match", F.c_str(), x.path.c_str(), it->second.type, it->second.alias ? " (alias)" : "");
        if (x.type != it->second.type) c.fail("%s gives \"%s\" type %d, it is %d", F.c_str(), x.path.c_str(), x.type, it->second.type);
        if (!it->second.alias) { long long t = zgetLastWriteTimeRec(w.d.ifltab, x.path.c_str()); if (x.t != t) c.fail("%s gives \"%s\" the last write time %lld, it is %lld", F.c_str(), x.path.c_str(), x.t, t); }
        if (f.time) { bool ok = f.tflag == -2 ? x.t < f.time : f.tflag == -1 ? x.t <= f.time : f.tflag == 0 ? x.t == f.time : f.tflag == 1 ? x.t >= f.time : x.t > f.time; if (!ok) c.fail("%s lists \"%s\", written at %lld", F.c_str(), x.path.c_str(), x.t); }
        if (f.dates && (x.d1 != it->second.d1 || x.d2 != it->second.d2)) c.fail("%s gives \"%s\" the dates %d to %d, they are %d to %d", F.c_str(), x.path.c_str(), x.d1, x.d2, it->second.d1, it->second.d2);
        if (f.crc) { unsigned k = zgetDataCRC(w.d.ifltab, x.path.c_str(), 0); if (k != x.crc) c.fail("%s gives \"%s\" the CRC %u, it is %u", F.c_str(), x.path.c_str(), x.crc, k); }
        n++; }
      if (!f.time) { for (auto &x : e) if (want(x.second) && !seen.count(x.first)) c.fail("%s does not list \"%s\" (%zu of its records)", F.c_str(), x.first.c_str(), n); }
      else { Filter g = f; g.time = 0; g.sorted = f.sorted == 2 ? 2 : 0; for (auto &x : get(c, w.d, g)) { bool ok = f.tflag == -2 ? x.t < f.time : f.tflag == -1 ? x.t <= f.time : f.tflag == 0 ? x.t == f.time : f.tflag == 1 ? x.t >= f.time : x.t > f.time; if (ok && !seen.count(up(x.path))) c.fail("%s does not list \"%s\", written at %lld", F.c_str(), x.path.c_str(), x.t); } }
      if (f.useWild && n && n < e.size()) c.nontrivial();
      if (f.useWild && n && n < e.size()) c.label("wildcard selects some"); if (f.t0 && n && n < e.size()) c.label("type filter selects some"); if (f.time && n && n < e.size()) c.label("time filter selects some");
    }
    if (f.sorted) { for (size_t i = 0; i + 1 < r.size(); i++) for (size_t j = i + 1; j < r.size() && j < i + 6; j++) { bool k; int o = cmpRows(r[i], r[j], k); if (k && o > 0) c.fail("%s lists \"%s\" before \"%s\"", F.c_str(), r[i].path.c_str(), r[j].path.c_str()); } if (r.size() > 5) c.label("sorted"); }
  }
  Filter genFilter() {
    Filter f; f.sorted = c.s.pick({1, 0, 1, 2}); if (c.s.chance(50)) { f.useWild = true; f.wild = genWild(); } f.status = c.s.pick({0, 0, 0, 0, 1, 2, 11, 12}); if (f.sorted == 2 && !f.useWild) f.sorted = 1;
    if (f.sorted == 2) { size_t k = f.wild.rfind('/', f.wild.size() - 2); if (f.wild[k + 1] == '*') f.wild = f.wild.substr(0, k + 1) + "*/"; } // a sequence behind a wildcard has no set meaning
    if (c.s.chance(25)) { auto p = c.s.pick(std::vector<std::pair<int, int>>{{300, 300}, {1, 1000}, {100, 199}, {105, 115}, {300, 450}, {90, 90}, {450, 450}, {500, 600}, {301, 309}}); f.t0 = p.first; f.t1 = p.second; }
    if (c.s.chance(20)) { Filter g; auto r = get(c, w.d, g); if (!r.empty()) { f.time = r[c.s.draw(r.size() - 1)].t + c.s.pick({0, 0, 1, -1}); f.tflag = (int)c.s.range(-2, 2); } }
    f.dates = c.s.chance(30); f.crc = c.s.chance(10); return f;
  }
  void checkFile() {
    S fn = c.path("cat.txt"); int so = (int)c.s.draw(1); Filter f; if (c.s.chance(40)) { f.useWild = true; f.wild = genWild(); } f.sorted = so;
    int nf = openFds(), st;
    if (!f.useWild && c.s.chance(40)) { // the caller opens and closes the file
      int h = open(fn.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); st = zcatalogToFile(w.d.ifltab, h, 0, so); if (lseek(h, 0, SEEK_CUR) < 0) c.fail("zcatalogToFile closed the caller's file"); close(h); c.label("to handle");
    } else st = zcatalogFile(w.d.ifltab, fn.c_str(), so, f.useWild ? f.wild.c_str() : 0);
    if (st < 0) c.fail("writing the catalogue to a file gave %d", st);
    if (openFds() != nf) c.fail("writing the catalogue to a file leaves %d files open, %d before", openFds(), nf);
    auto r = get(c, w.d, f); std::vector<S> a, b; for (auto &x : r) a.push_back(x.path);
    FILE *fp = fopen(fn.c_str(), "r"); if (fp) { char l[1000]; while (fgets(l, sizeof l, fp)) { size_t n = strlen(l); if (n && l[n - 1] == '\n') l[--n] = 0; b.push_back(l); } fclose(fp); } else if (!a.empty()) c.fail("no catalogue file was written");
    if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; c.fail("the catalogue file (%s) has %zu lines, the catalogue %zu entries; they differ at %zu: \"%s\" / \"%s\"", fstr(f).c_str(), b.size(), a.size(), i, i < b.size() ? b[i].c_str() : "", i < a.size() ? a[i].c_str() : ""); }
    unlink(fn.c_str());
    // the longest parts the file reports hold every pathname of the catalogue
    int mp[6]; zmaxPart(w.d.ifltab, mp); static const char *Q[] = {"maxa", "maxb", "maxc", "maxd", "maxe", "maxf"};
    for (int i = 0; i < 6; i++) if (zinquire(w.d.ifltab, Q[i]) != mp[i]) c.fail("zinquire %s gives %lld, zmaxPart %d", Q[i], (long long)zinquire(w.d.ifltab, Q[i]), mp[i]);
    for (auto &x : a) { auto q = parts(x); for (int i = 0; i < 6; i++) if ((int)q[i].size() > mp[i]) c.fail("the longest part %c is said to have %d characters, but \"%s\" is listed", 'A' + i, mp[i], x.c_str()); }
  }
  void checkSeed() { // the members of a collection, from one of them
    for (auto &x : w.live) if (x.first.compare(0, 6, "/COLL/") == 0 && c.s.chance(40)) {
      zStructCatalog *k = zstructCatalogNew(); int n = zcollectionCat(w.d.ifltab, x.first.c_str(), k); std::set<S> got; for (int i = 0; i < n; i++) got.insert(up(k->pathnameList[i])); std::set<S> want; auto p = parts(x.first);
      for (auto &y : w.live) { auto q = parts(y.first); bool same = seqOut(q[5]) == seqOut(p[5]); for (int i = 0; i < 5; i++) same = same && q[i] == p[i]; if (same) want.insert(y.first); }
      if (n != k->numberPathnames || got != want) { S ex; for (auto &g : got) if (!want.count(g)) ex = "it has " + g; for (auto &g : want) if (!got.count(g)) ex = "it lacks " + g; c.fail("the collection catalogue of %s has %d members, expected %zu: %s", x.first.c_str(), n, want.size(), ex.c_str()); }
      zstructFree(k); c.label("collection"); return;
    }
  }
};
static void run(Case &c) {
  K k(c); k.w.types = {300, 90, 450, 600, 310, 205}; k.w.maxValues = 60; k.w.begin(c.s.pick({0, 0, 0, 1, 2, 3}));
  int nops = (int)c.s.size(60) + 2;
  for (int i = 0; i < nops; i++) {
    switch (c.s.weighted({60, 10, 8, 3, 8, 4, 16, 5})) { case 0: k.w.step(); break; case 1: k.addTs(); break; case 2: k.addAlias(); break; case 3: k.removeAlias(); break; case 4: k.addSpecial(); break; case 5: k.w.burst(); for (auto &e : k.w.dead) k.w.reused.insert(e.first); break;
      case 6: k.checkOne(k.genFilter()); break; case 7: k.renameTs(); break; }
  }
  k.checkOne(Filter()); Filter s; s.sorted = 1; s.dates = true; k.checkOne(s); k.checkOne(k.genFilter()); k.checkFile(); k.checkSeed(); k.checkOne(s);
  if (k.w.live.size() > 2) c.nontrivial(); k.w.labels(nops);
  int st = k.w.d.close(); if (st) c.fail("close returned %d", st);
}
static eng::Reg r({"C13", "the file has more than two records or a wildcard selected some but not all of them", run, 1500, 60000, "exploration",
  {"Wildcards are given in all six parts, as '*', 'x*', '*x', '*x*', exact or null; null matches only null.", "Sorted order is A, B, C, then D, E, F (F, interval, date for time series; date, F, E for grids), comparing bytes with shorter parts blank-padded; records of different kinds with the same A, B and C have no set order."}});
}
