// C19: the exported C interface (hecdss.h) returns what was stored, its size
// queries suffice, and it stays inside the buffers it is given.
#include "mix.hpp"
#include <climits>
namespace {
// heap buffer of exactly n elements; a use of element n (also with n = 0) is seen by the address sanitizer
template <class T> struct Buf {
  char *raw; T *p; int n;
  explicit Buf(int n_) : n(n_) { size_t len = 16 + (size_t)n * sizeof(T); raw = (char *)malloc(len); memset(raw, 0x5A, len); p = (T *)(raw + 16); }
  Buf(const std::vector<T> &v) : Buf((int)v.size()) { if (n) memcpy(p, v.data(), sizeof(T) * n); }
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
  ~Buf() { free(raw); }
  bool under() const { for (int i = 0; i < 16; i++) if (raw[i] != 0x5A) return true; return false; }
  bool untouched(int from = 0) const { const char *q = (const char *)(p + from); for (size_t i = 0; i < (size_t)(n - from) * sizeof(T); i++) if (q[i] != 0x5A) return false; return true; }
  std::vector<T> vec(int k) const { return std::vector<T>(p, p + k); }
};
// a string argument copied to the heap, so that reading past its end is seen
struct Str { char *p; Str(const std::string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Str() { free(p); } operator const char *() const { return p; } };

enum K { REG, IRR, PD, TEXT, ARR, GRID, LOC, PAT, KN };
const char *kname[] = {"regular series", "irregular series", "paired data", "text", "array", "grid", "location", "pattern"};
struct Obj {
  int kind; std::string path; bool exists = false;
  // series
  RegTime rt; bool isFloat = false, hasQ = false; std::map<i64, double> v; std::map<i64, int> q; std::string units, type, tz; int gran = 60;
  // paired data
  int no = 0, nc = 0; std::vector<double> o, d; std::string u2, t2, labels;
  std::string text; std::vector<int> ia; std::vector<float> fa; std::vector<double> da;
  std::vector<int> gi; std::vector<std::string> gs; std::vector<float> gf, rl, data; std::vector<int> ge;
  double x = 0, y = 0, z = 0; std::vector<int> li; std::string supp;
};
std::string dstr(i64 T) { int j, s; splitT(T, j, s); i64 y; int m, d; cal::ymd(j, y, m, d); static const char *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; return fmt("%02d%s%04lld", d, M[m - 1], y); }
std::string tstr(i64 T) { int j, s; splitT(T, j, s); return s % 60 ? fmt("%02d:%02d:%02d", s / 3600, s / 60 % 60, s % 60) : fmt("%02d%02d", s / 3600, s / 60 % 60); }

struct Run {
  Case &c; dss_file *f = 0; std::string file; std::vector<Obj> objs; int reads = 0, tight = 0; bool foreign = false;
  Run(Case &c_) : c(c_) {}
  void open() { int st = hec_dss_open(file.c_str(), &f); if (st || !f) c.fail("hec_dss_open gave %d", st); }
  void close() { if (f) { int st = hec_dss_close(f); f = 0; if (st) c.fail("hec_dss_close gave %d", st); } }
  std::string word(int max) { std::string s = c.s.text(c.s.draw(max + 1), "abcXYZ-9./ "); while (!s.empty() && s.back() == ' ') s.pop_back(); size_t b = s.find_first_not_of(' '); return b == std::string::npos ? "" : s.substr(b); }
  std::string unit(int max) { std::string s; do s = word(max); while (0); return s.empty() ? "cfs" : s; }
  // a buffer length around what is needed
  int len(int need) { int k = (int)c.s.weighted({55, 10, 10, 10, 15}); int n = k == 0 ? need + 1 + (int)c.s.draw(20) : k == 1 ? need : k == 2 ? 0 : k == 3 ? need - 1 : (int)c.s.draw(need + 1); if (n < 0) n = 0; if (n <= need) tight++; return n; }
  void str(const Buf<char> &b, const std::string &want, const char *what, const std::string &path) {
    if (b.under()) c.fail("%s of \"%s\": bytes before the %d-byte buffer were written", what, path.c_str(), b.n);
    if (!b.n) return;
    std::string w = want.substr(0, b.n - 1); size_t k = strnlen(b.p, b.n);
    if ((int)k == b.n) c.fail("%s of \"%s\" (\"%s\") in a buffer of %d bytes is not terminated", what, path.c_str(), want.c_str(), b.n);
    if (std::string(b.p, k) != w) c.fail("%s of \"%s\" in a buffer of %d bytes is \"%s\", stored was \"%s\"", what, path.c_str(), b.n, std::string(b.p, k).c_str(), want.c_str());
  }
  template <class T> void intact(const Buf<T> &b, const std::vector<T> &v, const char *what, const std::string &path) { if (b.under() || (b.n && memcmp(b.p, v.data(), sizeof(T) * b.n))) c.fail("storing \"%s\" changed the caller's %s array", path.c_str(), what); }

  Obj make(int kind, int i) {
    Obj o; o.kind = kind; auto &g = c.s; std::string F = fmt("f%d", i);
    switch (kind) {
    case REG: { static const int ivs[] = {3600, 86400, 900, 60, cal::MONTH, 21600, cal::YEAR, 30, 1, 10, 43200, cal::SEMI}; int iv = ivs[g.draw(12)]; std::string e; for (auto &x : intervals()) if (x.sec == iv) e = x.name; if (e.empty()) { iv = 3600; e = "1Hour"; } o.rt = genRegTime(c, iv); if (iv >= 60 && o.rt.off % 60) { o.rt = RegTime(); o.rt.iv = iv; } /* times come back in minutes */ std::string D = g.chance(15) ? "01Jan1999" : ""; o.path = "/a/ts" + F + "/flow/" + D + "/" + e + "/" + F + "/"; break; }
    case IRR: { static const char *es[] = {"IR-Month", "IR-Day", "IR-Year", "IR-Decade"}; int e = (int)g.draw(4); o.gran = e <= 1 && g.chance(40) ? 1 : 60; o.path = fmt("/a/ir%s/flow//%s/%s/", F.c_str(), es[e], F.c_str()); o.rt.iv = e; break; }
    case PD: o.path = "/a/pd" + F + "/stage-flow///" + F + "/"; break;
    case TEXT: o.path = "/a/tx" + F + "/note///" + F + "/"; break;
    case ARR: o.path = "/a/ar" + F + "/arr///" + F + "/"; break;
    case GRID: o.path = "/a/gr" + F + "/precip/01Jan2001:0100/01Jan2001:0200/" + F + "/"; break;
    case LOC: o.path = "/a/loc" + F + (g.chance(50) ? "/location info////" : "/flow//1Hour/x/"); break;
    case PAT: o.path = "/a/pt" + F + "/flow/TS-Pattern/1Hour/" + F + "/"; o.rt.iv = 3600; break;
    }
    o.isFloat = g.chance(50); o.hasQ = kind != PAT && g.chance(35); o.units = unit(16); o.type = g.pick({std::string("INST-VAL"), std::string("PER-AVER"), std::string("PER-CUM"), std::string("INST-CUM")}); o.tz = g.chance(60) ? unit(20) : "";
    return o;
  }
  void storeTs(Obj &o) {
    auto &g = c.s; int n = (int)(g.chance(15) ? 1 + g.size(900) : g.range(1, 40)); std::vector<double> v = genValues(c, n, !o.isFloat), orig = v; std::vector<i64> T; int flag = 0;
    if (g.chance(15)) for (auto &x : v) if (!isMiss(x)) x += 0.123456789; // more digits than a float holds
    std::vector<int> q; if (o.hasQ) for (int i = 0; i < n; i++) q.push_back((int)g.draw(1 << (i % 20)) - 3);
    int qn = o.hasQ ? n : 0; int st; Buf<double> bv(v); Buf<int> bq(q); Str units(o.units), type(o.type), tz(o.tz), path(o.path);
    if (o.kind == PAT) { // values at hours of a year without date
      i64 k0 = cal::slotOf(3600, cal::days(3000, 1, (int)g.range(1, 5)) * cal::DAY + 3600 * g.range(1, 24)); for (int i = 0; i < n; i++) T.push_back(k0 + i);
    }
    if (o.kind == REG) {
      i64 k0; if (!o.v.empty() && g.chance(60)) { i64 lo = o.rt.slot(o.v.begin()->first), hi = o.rt.slot(o.v.rbegin()->first); k0 = g.range(lo - n, hi + 3); } else { k0 = o.rt.slot(cal::days(g.range(1960, 2060), (int)g.range(1, 12), (int)g.range(1, 28)) * cal::DAY + 3600 * g.draw(24)); if (!o.v.empty() && std::abs((double)(o.rt.at(k0) - o.v.begin()->first)) / std::max(60, o.rt.iv) > 20000) k0 = o.rt.slot(o.v.rbegin()->first) + g.range(1, 500); }
      for (int i = 0; i < n; i++) T.push_back(o.rt.at(k0 + i));
      flag = o.hasQ ? 0 : (int)g.weighted({70, 8, 8, 4, 10}); Str sd(dstr(T[0])), stt(tstr(T[0]));
      c.note("tsStoreRegular \"%s\" %s %s n=%d%s%s flag %d", o.path.c_str(), (const char *)sd, (const char *)stt, n, o.isFloat ? " float" : "", o.hasQ ? " quality" : "", flag);
      st = hec_dss_tsStoreRegular(f, path, sd, stt, bv.p, n, o.hasQ ? bq.p : 0, qn, o.isFloat, units, type, tz, flag);
    } else if (o.kind == IRR) {
      static const i64 span[] = {40, 3, 500, 3000}; i64 base = cal::days(1990 + g.range(0, 20), (int)g.range(1, 12), 1); if (!o.v.empty() && g.chance(80)) base = cal::fdiv(o.v.begin()->first, cal::DAY) - g.draw(3);
      i64 t = base * cal::DAY + 60 * g.range(1, 1440), step = std::max<i64>(60, span[o.rt.iv] * cal::DAY / (n + 1)); std::vector<int> tm; for (int i = 0; i < n; i++) { T.push_back(t); tm.push_back((int)((t - base * cal::DAY) / o.gran)); i64 s = 1 + g.draw(2 * step); if (o.gran == 60) s = s / 60 * 60 + 60; t += s; }
      flag = (int)g.draw(2); Str sd(dstr(base * cal::DAY + 60)); Buf<int> bt(tm);
      c.note("tsStoreIregular \"%s\" base %s n=%d%s%s granularity %d flag %d", o.path.c_str(), (const char *)sd, n, o.isFloat ? " float" : "", o.hasQ ? " quality" : "", o.gran, flag);
      st = hec_dss_tsStoreIregular(f, path, sd, bt.p, o.gran, bv.p, n, o.hasQ ? bq.p : 0, qn, o.isFloat, units, type, tz, flag); intact(bt, tm, "times", o.path);
    } else { Str sd("01Jan3000"), stt("0100"); c.note("pattern store \"%s\" n=%d", o.path.c_str(), n); st = hec_dss_tsStoreRegular(f, path, sd, stt, bv.p, n, o.hasQ ? bq.p : 0, qn, o.isFloat, units, type, tz, 0); T.clear(); for (int i = 0; i < n; i++) T.push_back(i); o.v.clear(); o.q.clear(); }
    intact(bv, v, "value", o.path); intact(bq, q, "quality", o.path);
    bool anyValid = false; for (double x : v) if (!isMiss(x)) anyValid = true;
    if (st) { if (!anyValid) return; c.fail("storing \"%s\" gave %d", o.path.c_str(), st); }
    if (o.kind == IRR && flag == 1) { o.v.erase(o.v.lower_bound(T[0]), o.v.upper_bound(T.back())); o.q.erase(o.q.lower_bound(T[0]), o.q.upper_bound(T.back())); }
    for (int i = 0; i < n; i++) {
      double x = o.isFloat ? (double)(float)v[i] : v[i]; bool miss = isMiss(v[i]); auto it = o.v.find(T[i]); bool have = it != o.v.end() && !isMiss(it->second);
      if (o.kind == REG && flag == 1 && have) continue; if (o.kind == REG && flag == 4 && miss && have) continue;
      o.v[T[i]] = miss ? MISS() : x; if (o.hasQ) o.q[T[i]] = q[i];
    }
    o.exists = true;
  }
  void readTs(Obj &o) {
    auto &g = c.s; bool all = o.kind == PAT || g.chance(50); i64 lo = 0, hi = 0; std::string D, t1, E, t2; std::map<i64, double> want;
    std::map<i64, double> valid; for (auto &e : o.v) if (!isMiss(e.second)) valid[e.first] = e.second;
    if (!all) {
      i64 a = o.v.begin()->first, b = o.v.rbegin()->first;
      if (o.kind == REG) { i64 ka = o.rt.slot(a), kb = o.rt.slot(b); i64 k1 = g.range(ka - 5, kb), k2 = std::min(k1 + g.range(0, kb - ka + 5), k1 + 3000); if (g.chance(20) && kb - ka < 20000) k1 = ka - 2, k2 = kb + 2; lo = o.rt.at(k1); hi = o.rt.at(k2); }
      else { lo = a - 60 * g.range(0, 3000); hi = b + 60 * g.range(0, 3000); if (g.chance(50)) { auto it = o.v.begin(); std::advance(it, g.draw(o.v.size())); lo = it->first; auto it2 = it; std::advance(it2, g.draw(std::distance(it, o.v.end()))); hi = it2->first; } if (o.gran == 60) lo = lo / 60 * 60, hi = (hi + 59) / 60 * 60; if (hi < lo) hi = lo; }
      D = dstr(lo); t1 = tstr(lo); E = dstr(hi); t2 = tstr(hi);
      want.insert(valid.lower_bound(lo), valid.upper_bound(hi));
    } else want = valid;
    bool nul = all && g.chance(50); Str path(o.path), sD(D), sT(t1), sE(E), sU(t2); const char *pD = nul ? 0 : (const char *)sD, *pT = nul ? 0 : (const char *)sT, *pE = nul ? 0 : (const char *)sE, *pU = nul ? 0 : (const char *)sU;
    int num = -7, qes = -7; int ss = -1;
    if (o.kind != PAT) { ss = hec_dss_tsGetSizes(f, path, pD, pT, pE, pU, &num, &qes); c.note("tsGetSizes \"%s\" %s %s..%s %s: %d, %d values, quality size %d", o.path.c_str(), D.c_str(), t1.c_str(), E.c_str(), t2.c_str(), ss, num, qes);
      if (ss && !want.empty()) c.fail("tsGetSizes of \"%s\" for %s %s..%s %s gave %d", o.path.c_str(), D.c_str(), t1.c_str(), E.c_str(), t2.c_str(), ss);
      if (ss == 0 && !want.empty() && (qes >= 1) != o.hasQ) c.fail("tsGetSizes of \"%s\" says quality size %d, %s was stored", o.path.c_str(), qes, o.hasQ ? "quality" : "none"); }
    int cap = 4000000; // what a single-record window can need, found by a first ample read
    i64 need = all ? (o.kind == REG ? (o.rt.slot(o.v.rbegin()->first) - o.rt.slot(o.v.begin()->first)) + (o.rt.iv < 10 ? 180000 : 50000) : (i64)o.v.size() + 10) : o.kind == REG ? o.rt.slot(hi) - o.rt.slot(lo) + 10 : (i64)o.v.size() + 10; if (need < cap) cap = (int)need;
    int mode = (int)g.weighted({40, 30, 30}); int size = mode == 0 ? cap : mode == 1 && ss == 0 ? num : (int)g.draw(20); if (size < 0) c.fail("tsGetSizes of \"%s\" gave %d values", o.path.c_str(), num);
    int qw = g.chance(40) ? 0 : (int)g.range(1, 2); Buf<int> tm(size), q(size * qw); Buf<double> v(size); int lu = len((int)o.units.size()), lt = len((int)o.type.size()), lz = len((int)o.tz.size()); Buf<char> bu(lu), bt(lt), bz(lz); int nread = -5, base = 0, gran = 0;
    c.note("tsRetrieve \"%s\" %s, array size %d, quality width %d, buffers %d %d %d", o.path.c_str(), all ? nul ? "no window (null)" : "no window (empty)" : (D + " " + t1 + ".." + E + " " + t2).c_str(), size, qw, lu, lt, lz);
    int st = hec_dss_tsRetrieve(f, path, pD, pT, pE, pU, tm.p, v.p, size, &nread, q.p, qw, &base, &gran, bu.p, lu, bt.p, lt, bz.p, lz);
    reads++;
    if (v.under() || tm.under() || q.under()) c.fail("bytes before a buffer were written");
    if (st) { if (!want.empty()) c.fail("tsRetrieve of \"%s\" %s %s..%s %s gave %d", o.path.c_str(), D.c_str(), t1.c_str(), E.c_str(), t2.c_str(), st); if (nread != 0) c.fail("tsRetrieve failed with %d and reports %d values", st, nread); return; }
    if (nread < 0 || nread > size) c.fail("tsRetrieve of \"%s\" into arrays of %d reports %d values", o.path.c_str(), size, nread);
    if (!v.untouched(nread)) c.fail("tsRetrieve of \"%s\" wrote values beyond the %d it reports", o.path.c_str(), nread);
    if (want.empty()) { for (int i = 0; i < nread; i++) if (!isMiss(v.p[i])) c.fail("tsRetrieve of \"%s\" returned value %g where none was stored", o.path.c_str(), v.p[i]); return; }
    str(bu, o.units, "units", o.path); str(bt, o.type, "type", o.path); str(bz, o.tz, "time zone", o.path);
    bool complete = mode == 0 || (mode == 1 && ss == 0); i64 last = LLONG_MIN; size_t seen = 0; auto w = want.begin();
    for (int i = 0; i < nread; i++) {
      i64 T = o.kind == PAT ? i : (i64)tm.p[i] * gran + (i64)base * cal::DAY; if (T <= last) c.fail("tsRetrieve of \"%s\": time %d (%s) is not after the one before it", o.path.c_str(), i, cal::str(T).c_str()); last = T;
      if (!all && (T < lo || T > hi)) c.fail("tsRetrieve of \"%s\": time %s is outside the window", o.path.c_str(), cal::str(T).c_str());
      auto it = want.find(T); double got = v.p[i];
      if (isMiss(got)) { if (it != want.end()) c.fail("tsRetrieve of \"%s\": no value at %s, stored was %.17g", o.path.c_str(), cal::str(T).c_str(), it->second); }
      else { if (it == want.end()) c.fail("tsRetrieve of \"%s\": value %.17g at %s (position %d of %d), none was stored", o.path.c_str(), got, cal::str(T).c_str(), i, nread); if (it->second != got) c.fail("tsRetrieve of \"%s\": value %.17g at %s, stored was %.17g", o.path.c_str(), got, cal::str(T).c_str(), it->second); seen++;
        for (int j = 0; j < qw; j++) { int wq = o.hasQ && j == 0 ? o.q[T] : 0, gq = q.p[i * qw + j]; if (gq != wq) c.fail("tsRetrieve of \"%s\": quality %d (column %d of %d) at %s, stored was %d", o.path.c_str(), gq, j, qw, cal::str(T).c_str(), wq); } }
      (void)w;
    }
    if (complete && seen != want.size()) c.fail("tsRetrieve of \"%s\" into arrays of %d (%s) returned %zu of the %zu values stored", o.path.c_str(), size, mode == 1 ? "as tsGetSizes said" : "ample", seen, want.size());
    if (!complete && nread < size && seen != want.size()) c.fail("tsRetrieve of \"%s\" left room in arrays of %d but returned %zu of %zu values", o.path.c_str(), size, seen, want.size());
    if (o.kind == PAT && g.chance(30)) {
      int a, b, d2, e; int s2 = hec_dss_tsGetDateTimeRange(f, path, 1, &a, &b, &d2, &e); i64 A = (i64)a * cal::DAY + b, B = (i64)d2 * cal::DAY + e; if (s2 || B - A != ((i64)o.v.size() - 1) * 3600 || cal::fmodi(A, 3600)) c.fail("tsGetDateTimeRange of the pattern \"%s\" of %zu hourly values gave %d, %s..%s", o.path.c_str(), o.v.size(), s2, cal::str(A).c_str(), cal::str(B).c_str());
    }
    if (o.kind != PAT && g.chance(30)) {
      int a, b, d2, e; int s2 = hec_dss_tsGetDateTimeRange(f, path, 1, &a, &b, &d2, &e); if (s2) c.fail("tsGetDateTimeRange of \"%s\" gave %d", o.path.c_str(), s2);
      i64 A = (i64)a * cal::DAY + b, B = (i64)d2 * cal::DAY + e; // a record of missing values only reports its whole span, so the range is exact only without missing values
      bool allv = valid.size() == o.v.size(), okA = allv ? A == valid.begin()->first : A <= valid.begin()->first, okB = allv ? B == valid.rbegin()->first : B >= valid.rbegin()->first;
      if (o.kind == REG && o.rt.off) { okA = okA || A <= cal::eop(o.rt.iv, o.rt.slot(valid.begin()->first)); okB = okB || B >= valid.rbegin()->first; } // the range is in standard end-of-period times
      if (!okA || !okB) c.fail("tsGetDateTimeRange of \"%s\" is %s..%s, stored are %s..%s", o.path.c_str(), cal::str(A).c_str(), cal::str(B).c_str(), cal::str(valid.begin()->first).c_str(), cal::str(valid.rbegin()->first).c_str());
    }
  }
  void store(Obj &o) {
    auto &g = c.s; Str path(o.path); int st = 0;
    switch (o.kind) {
    case REG: case IRR: case PAT: storeTs(o); return;
    case PD: {
      o.no = (int)g.range(1, 30); o.nc = (int)g.range(1, 6); o.o = genValues(c, o.no, true); o.d = genValues(c, (i64)o.no * o.nc, true); o.u2 = unit(12); o.t2 = unit(8); o.labels.clear(); bool lab = g.chance(60); if (lab) for (int i = 0; i < o.nc; i++) o.labels += unit(10), o.labels.push_back('\0');
      std::string ui = o.units, ti = o.type; Buf<double> bo(o.o), bd(o.d); Str a(ui), b(ti), u(o.u2), t(o.t2), z(o.tz); Buf<char> bl(std::vector<char>(o.labels.begin(), o.labels.end())); c.note("pdStore \"%s\" %d x %d labels %zu bytes", o.path.c_str(), o.no, o.nc, o.labels.size());
      st = hec_dss_pdStore(f, path, bo.p, o.no, bd.p, o.no * o.nc, o.no, o.nc, a, b, u, t, lab ? bl.p : 0, (int)o.labels.size(), z); intact(bo, o.o, "ordinate", o.path); intact(bd, o.d, "value", o.path); break; }
    case TEXT: { o.text = g.text(1 + (g.chance(20) ? g.size(3000) : g.draw(40)), "abc XYZ\n\t.\xc3\xa9"); Buf<char> b(std::vector<char>(o.text.c_str(), o.text.c_str() + o.text.size() + 1)); c.note("textStore \"%s\" %zu characters", o.path.c_str(), o.text.size()); st = hec_dss_textStore(f, path, b.p, (int)o.text.size()); break; }
    case ARR: { int m = 1 + (int)g.draw(7); o.ia.clear(); o.fa.clear(); o.da.clear(); if (m & 1) genIV(c, o.ia, 1 + g.draw(50)); if (m & 2) { int n = 1 + (int)g.draw(40); for (int i = 0; i < n; i++) o.fa.push_back((float)g.range(-1000, 1000) / 8); } if (m & 4) { int n = 1 + (int)g.draw(40); for (int i = 0; i < n; i++) o.da.push_back((double)g.range(-1000000, 1000000) / 7); }
      if (o.ia.empty() && o.fa.empty() && o.da.empty()) o.ia.push_back(3);
      Buf<int> a(o.ia); Buf<float> b(o.fa); Buf<double> d(o.da); c.note("arrayStore \"%s\" %d %d %d", o.path.c_str(), a.n, b.n, d.n); st = hec_dss_arrayStore(f, path, a.n || g.chance(50) ? a.p : 0, a.n, b.n || g.chance(50) ? b.p : 0, b.n, d.n || g.chance(50) ? d.p : 0, d.n); intact(a, o.ia, "int", o.path); intact(b, o.fa, "float", o.path); intact(d, o.da, "double", o.path); break; }
    case GRID: {
      int nx = (int)g.range(1, g.chance(20) ? 80 : 12), ny = (int)g.range(1, g.chance(20) ? 60 : 12), nr = (int)g.draw(8); static const int types[] = {400, 401, 410, 411, 420, 421, 430, 431}; int gt = o.gi.empty() ? types[g.draw(8)] : o.gi[0];
      o.gi = {gt, (int)g.range(0, 3), (int)g.range(-500, 500), (int)g.range(-500, 500), nx, ny, nr, (int)g.draw(2), (int)g.range(-43200000, 43200000), (int)g.draw(2), (int)g.draw(2)};
      o.gs = {word(12), word(20), word(15), word(g.chance(30) ? 400 : 30), word(12)}; o.gf = {(float)g.range(1, 4000), (float)g.range(-100, 100) / 4, (float)g.range(-100, 100), -FLT_MAX, (float)g.range(0, 100), (float)g.range(-100, 0), (float)g.range(0, 10)};
      o.rl.clear(); o.ge.clear(); for (int i = 0; i < nr; i++) o.rl.push_back((float)i * 2 - 3), o.ge.push_back((int)g.draw(1000)); auto gv = genValues(c, (i64)nx * ny, false); o.data.assign(gv.begin(), gv.end());
      Buf<float> br(o.rl), bd(o.data); Buf<int> be(o.ge); Str s0(o.gs[0]), s1(o.gs[1]), s2(o.gs[2]), s3(o.gs[3]), s4(o.gs[4]); c.note("gridStore \"%s\" type %d %dx%d %d ranges", o.path.c_str(), gt, nx, ny, nr);
      st = hec_dss_gridStore(f, path, o.gi[0], o.gi[1], o.gi[2], o.gi[3], nx, ny, nr, o.gi[7], o.gi[8], o.gi[9], o.gi[10], 0, s0, s1, s2, s3, s4, o.gf[0], o.gf[1], o.gf[2], o.gf[3], o.gf[4], o.gf[5], o.gf[6], br.p, be.p, bd.p);
      intact(br, o.rl, "range limit", o.path); intact(bd, o.data, "grid data", o.path); intact(be, o.ge, "range count", o.path); break; }
    case LOC: {
      double x = (double)g.range(-1800000, 1800000) / 10000, y = (double)g.range(-900000, 900000) / 10000, z = (double)g.range(-100, 9000); std::vector<int> li; for (int i = 0; i < 6; i++) li.push_back((int)g.draw(i == 1 ? 9000 : 6)); std::string tz = word(20), su = g.chance(50) ? "" : word(60); Str a(tz), b(su); int rep = (int)g.draw(2);
      c.note("locationStore \"%s\" %g %g %g replace %d", o.path.c_str(), x, y, z, rep); st = hec_dss_locationStore(f, path, x, y, z, li[0], li[1], li[2], li[3], li[4], li[5], a, b, rep);
      if (o.exists && !rep) { if (st && st != 1) {} return; }
      o.x = x; o.y = y; o.z = z; o.li = li; o.tz = tz; o.supp = su; break; }
    }
    if (st) c.fail("storing %s \"%s\" gave %d", kname[o.kind], o.path.c_str(), st); o.exists = true;
  }
  void read(Obj &o) {
    auto &g = c.s; Str path(o.path); int st = 0; const char *P = o.path.c_str();
    switch (o.kind) {
    case REG: case IRR: case PAT: readTs(o); return;
    case PD: {
      int lu = len((int)o.units.size()), lt = len((int)o.type.size()), l2 = len((int)o.u2.size()), l3 = len((int)o.t2.size()), ll = len((int)o.labels.size()), lz = len((int)o.tz.size()); int a = -9, b = -9, d = -9;
      { Buf<char> u(lu), t(lt), u2(l2), t2(l3); st = hec_dss_pdRetrieveInfo(f, path, &a, &b, u.p, lu, u2.p, l2, t.p, lt, t2.p, l3, &d); if (st) c.fail("pdRetrieveInfo of \"%s\" gave %d", P, st);
        if (a != o.no || b != o.nc || d != (int)o.labels.size()) c.fail("pdRetrieveInfo of \"%s\" says %d ordinates %d curves %d bytes of labels, stored were %d %d %zu", P, a, b, d, o.no, o.nc, o.labels.size());
        str(u, o.units, "independent units", P); str(t, o.type, "independent type", P); str(u2, o.u2, "dependent units", P); str(t2, o.t2, "dependent type", P); }
      int no = o.no, nv = o.no * o.nc; bool exact = g.chance(70); if (!exact) { if (g.chance(50)) no = (int)g.draw(o.no + 3); if (g.chance(70)) nv = (int)g.draw(nv + 5); } exact = no == o.no && nv == o.no * o.nc;
      Buf<double> bo(no), bd(nv); Buf<char> u(lu), t(lt), u2(l2), t2(l3), lab(ll), z(lz); int rn = -3, rc = -3; c.note("pdRetrieve \"%s\" into %d, %d doubles, labels %d", P, no, nv, ll);
      st = hec_dss_pdRetrieve(f, path, bo.p, no, bd.p, nv, &rn, &rc, u.p, lu, t.p, lt, u2.p, l2, t2.p, l3, lab.p, ll, z.p, lz);
      if (exact && st) c.fail("pdRetrieve of \"%s\" with the sizes of pdRetrieveInfo gave %d", P, st); if (bo.under() || bd.under() || lab.under()) c.fail("bytes before a buffer were written"); 
      if (!exact) { if (!st && (no < o.no || nv < o.no * o.nc)) c.fail("pdRetrieve of \"%s\" (%d x %d) into %d, %d doubles succeeded", P, o.no, o.nc, no, nv); break; }
      if (rn != o.no || rc != o.nc) c.fail("pdRetrieve of \"%s\" says %d x %d, stored %d x %d", P, rn, rc, o.no, o.nc);
      if (memcmp(bo.p, o.o.data(), 8 * o.no)) c.fail("pdRetrieve of \"%s\": ordinates differ from those stored", P); if (memcmp(bd.p, o.d.data(), 8 * nv)) c.fail("pdRetrieve of \"%s\": values differ from those stored", P);
      str(u, o.units, "independent units", P); str(t, o.type, "independent type", P); str(u2, o.u2, "dependent units", P); str(t2, o.t2, "dependent type", P); str(z, o.tz, "time zone", P);
      int k = std::min(ll, (int)o.labels.size()); if (memcmp(lab.p, o.labels.data(), k)) c.fail("pdRetrieve of \"%s\": labels differ from those stored", P); break; }
    case TEXT: {
      int n = (int)o.text.size(), l = len(n); Buf<char> b(l); c.note("textRetrieve \"%s\" into %d bytes", P, l); st = hec_dss_textRetrieve(f, path, b.p, l); int k = std::min(n, l);
      if (st != (l < n ? HEC_DSS_BUFFER_TOO_SMALL : 0)) c.fail("textRetrieve of \"%s\" (%d characters) into %d bytes gave %d", P, n, l, st);
      if (memcmp(b.p, o.text.data(), k) || b.under()) c.fail("textRetrieve of \"%s\" (%d characters) into %d bytes: text differs from the one stored", P, n, l); if (l > n && b.p[n]) c.fail("textRetrieve of \"%s\" (%d characters) into %d bytes: not terminated", P, n, l); break; }
    case ARR: {
      int a = -4, b = -4, d = -4; st = hec_dss_arrayRetrieveInfo(f, path, &a, &b, &d); if (st) c.fail("arrayRetrieveInfo of \"%s\" gave %d", P, st); if (a != (int)o.ia.size() || b != (int)o.fa.size() || d != (int)o.da.size()) c.fail("arrayRetrieveInfo of \"%s\" says %d %d %d, stored %zu %zu %zu", P, a, b, d, o.ia.size(), o.fa.size(), o.da.size());
      auto sz = [&](int n) { return g.chance(65) ? n : (int)g.draw(n + 4); }; Buf<int> bi(sz(a)); Buf<float> bf(sz(b)); Buf<double> bd(sz(d)); c.note("arrayRetrieve \"%s\" into %d %d %d", P, bi.n, bf.n, bd.n); st = hec_dss_arrayRetrieve(f, path, bi.p, bi.n, bf.p, bf.n, bd.p, bd.n);
      if (bi.under() || bf.under() || bd.under()) c.fail("bytes before a buffer were written");
      if (st) { if (bi.n >= a && bf.n >= b && bd.n >= d) c.fail("arrayRetrieve of \"%s\" gave %d", P, st); break; }
      int k = std::min(a, bi.n); if (memcmp(bi.p, o.ia.data(), 4 * k) || !bi.untouched(k)) c.fail("arrayRetrieve of \"%s\" (%d ints) into %d differs from what was stored", P, a, bi.n); k = std::min(b, bf.n); if (memcmp(bf.p, o.fa.data(), 4 * k) || !bf.untouched(k)) c.fail("arrayRetrieve of \"%s\" (%d floats) into %d differs from what was stored", P, b, bf.n); k = std::min(d, bd.n); if (memcmp(bd.p, o.da.data(), 8 * k) || !bd.untouched(k)) c.fail("arrayRetrieve of \"%s\" (%d doubles) into %d differs from what was stored", P, d, bd.n); break; }
    case GRID: {
      int data = g.chance(80); int r[11]; for (int &x : r) x = -77777; float fl[7] = {0}; int L[5]; for (int i = 0; i < 5; i++) L[i] = len((int)o.gs[i].size()); Buf<char> b0(L[0]), b1(L[1]), b2(L[2]), b3(L[3]), b4(L[4]); int cells = (int)o.data.size(), nr = (int)o.rl.size();
      int rn = g.chance(60) ? nr : (int)g.draw(nr + 3), dn = g.chance(60) ? cells : (int)g.draw(cells + 5); Buf<float> br(rn), bd(dn); Buf<int> be(rn); c.note("gridRetrieve \"%s\" data %d into %d cells, %d ranges", P, data, dn, rn);
      st = hec_dss_gridRetrieve(f, path, data, &r[0], &r[1], &r[2], &r[3], &r[4], &r[5], &r[6], &r[7], &r[8], &r[9], &r[10], b0.p, L[0], b1.p, L[1], b2.p, L[2], b3.p, L[3], b4.p, L[4], &fl[0], &fl[1], &fl[2], &fl[3], &fl[4], &fl[5], &fl[6], br.p, rn, be.p, bd.p, dn);
      if (st) c.fail("gridRetrieve of \"%s\" gave %d", P, st); for (int i = 0; i < 11; i++) if (r[i] != o.gi[i]) c.fail("gridRetrieve of \"%s\": integer attribute %d is %d, stored %d", P, i, r[i], o.gi[i]);
      for (int i = 0; i < (data ? 7 : 4); i++) if (fl[i] != o.gf[i]) c.fail("gridRetrieve of \"%s\": float attribute %d is %g, stored %g", P, i, fl[i], o.gf[i]);
      static const char *nm[] = {"data units", "data source", "srs name", "srs definition", "time zone"}; Buf<char> *bb[] = {&b0, &b1, &b2, &b3, &b4}; for (int i = 0; i < 5; i++) str(*bb[i], o.gs[i], nm[i], P);
      if (br.under() || bd.under() || be.under()) c.fail("bytes before a buffer were written"); if (!data) break; int k = std::min(rn, nr); if (memcmp(br.p, o.rl.data(), 4 * k) || memcmp(be.p, o.ge.data(), 4 * k)) c.fail("gridRetrieve of \"%s\": range table differs from the one stored", P); k = std::min(dn, cells); for (int i = 0; i < k; i++) if (bd.p[i] != o.data[i]) c.fail("gridRetrieve of \"%s\" (%d cells): cell %d is %g, stored %g", P, cells, i, bd.p[i], o.data[i]); break; }
    case LOC: {
      double x, y, z; int r[6]; int lz = len((int)o.tz.size()), ls = len((int)o.supp.size()); Buf<char> bz(lz), bs(ls); c.note("locationRetrieve \"%s\" buffers %d %d", P, lz, ls); st = hec_dss_locationRetrieve(f, path, &x, &y, &z, &r[0], &r[1], &r[2], &r[3], &r[4], &r[5], bz.p, lz, bs.p, ls); if (st) c.fail("locationRetrieve of \"%s\" gave %d", P, st);
      if (x != o.x || y != o.y || z != o.z) c.fail("locationRetrieve of \"%s\" gave %g %g %g, stored %g %g %g", P, x, y, z, o.x, o.y, o.z); for (int i = 0; i < 6; i++) if (r[i] != o.li[i]) c.fail("locationRetrieve of \"%s\": integer %d is %d, stored %d", P, i, r[i], o.li[i]); str(bz, o.tz, "time zone", P); str(bs, o.supp, "supplemental", P); break; }
    }
    reads++;
  }
  std::vector<std::pair<std::string, int>> cat(const char *filter) {
    int n = hec_dss_record_count(f); if (n < 0) c.fail("record_count gave %d", n); int w = hec_dss_CONSTANT_MAX_PATH_SIZE(); Buf<char> b(n * w); Buf<int> t(n); int k = hec_dss_catalog(f, b.p, t.p, filter, n, w); if (k < 0 || k > n) c.fail("hec_dss_catalog with room for %d gave %d", n, k); if (!filter && k != n) c.fail("hec_dss_record_count says %d, the catalogue holds %d", n, k);
    std::vector<std::pair<std::string, int>> r; for (int i = 0; i < k; i++) r.push_back({std::string(b.p + i * w), t.p[i]}); if (b.under() || t.under()) c.fail("bytes before a buffer were written"); return r;
  }
  void catalog() {
    auto &g = c.s; auto full = cat(0); int n = (int)full.size(); int cnt = g.chance(50) ? n : (int)g.draw(n + 3), w = g.chance(40) ? (int)g.draw(12) : (int)g.range(1, 400); Buf<char> b(cnt * w); Buf<int> t(cnt); c.note("catalog of %d into %d items of %d bytes", n, cnt, w);
    int k = hec_dss_catalog(f, b.p, t.p, g.chance(50) ? 0 : "", cnt, w); if (k != std::min(n, cnt)) c.fail("hec_dss_catalog of %d records with room for %d gave %d", n, cnt, k); if (b.under() || t.under()) c.fail("bytes before a buffer were written");
    for (int i = 0; i < k; i++) { if (t.p[i] != full[i].second) c.fail("catalogue item %d: type %d, else %d", i, t.p[i], full[i].second); if (w) { std::string s(b.p + i * w, strnlen(b.p + i * w, w)); if (s != full[i].first.substr(0, w - 1)) c.fail("catalogue item %d of %d bytes is \"%s\", the path is \"%s\"", i, w, s.c_str(), full[i].first.c_str()); } }
    for (auto &e : full) { int t2 = hec_dss_recordType(f, Str(e.first)); if (t2 != e.second) c.fail("recordType of \"%s\" is %d, the catalogue says %d", e.first.c_str(), t2, e.second); int d = hec_dss_dataType(f, Str(e.first)); if (d != e.second) c.fail("dataType of \"%s\" is %d, the catalogue says %d", e.first.c_str(), d, e.second); }
    if (foreign) return;
    for (auto &o : objs) if (o.exists) {
      size_t hits = 0; std::string P = up(o.path); for (auto &e : full) { std::string q = up(e.first); if (o.kind == REG || o.kind == IRR) { size_t p = 0; for (int i = 0; i < 4; i++) p = P.find('/', p + 1); size_t e1 = P.find('/', P.find('/', P.find('/', 1) + 1) + 1); std::string ab = P.substr(0, e1 + 1), ef = P.substr(p); if (q.compare(0, ab.size(), ab) == 0 && q.size() > ef.size() && q.compare(q.size() - ef.size(), ef.size(), ef) == 0) { hits++;
          char u[40], ty[40]; memset(u, 0x5a, 40); memset(ty, 0x5a, 40); int st = hec_dss_tsRetrieveInfo(f, Str(e.first), u, 40, ty, 40); if (st) c.fail("tsRetrieveInfo of \"%s\" gave %d", e.first.c_str(), st); if (o.units != u || o.type != ty) c.fail("tsRetrieveInfo of \"%s\" says \"%s\" \"%s\", stored \"%s\" \"%s\"", e.first.c_str(), u, ty, o.units.c_str(), o.type.c_str()); int lu = (int)g.draw(5); Buf<char> bu(lu), bt(lu); hec_dss_tsRetrieveInfo(f, Str(e.first), bu.p, lu, bt.p, lu); str(bu, o.units, "units", e.first); str(bt, o.type, "type", e.first); } }
        else if (o.kind == LOC) { if (q == "/A/LOC" + P.substr(6, P.find('/', 6) - 6) + "/LOCATION INFO////") hits++; } else if (q == P) hits++; }
      bool any = o.kind != REG && o.kind != IRR; for (auto &e : o.v) if (!isMiss(e.second)) any = true;
      if (any && !hits) c.fail("%s \"%s\" is not in the catalogue", kname[o.kind], o.path.c_str());
    }
  }
  // any stored record through every retrieval, whatever its type, with any buffers
  void anything(const std::string &p0) {
    std::string U = up(p0); if (U.find("/RAW/") != std::string::npos || U.compare(0, 7, "/ALIAS/") == 0) return; // raw records carry a type without its layout
    auto &g = c.s; std::string p = p0; Str path(p); int n = (int)g.draw(40); auto L = [&]() { return (int)g.draw(12); }; int i1 = 0, i2 = 0, i3 = 0, i4 = 0;
    switch (g.draw(7)) {
    case 0: { int w = (int)g.draw(4); bool win = g.chance(50); Buf<int> t(n), q(n * w); Buf<double> v(n); Buf<char> a(L()), b(L()), z(L()); c.note("tsRetrieve of \"%s\" into %d, quality width %d", p.c_str(), n, w); int st = hec_dss_tsRetrieve(f, path, win ? "15Jan2000" : "", win ? "0100" : "", win ? "20Mar2000" : "", win ? "2400" : "", t.p, v.p, n, &i1, q.p, w, &i2, &i3, a.p, a.n, b.p, b.n, z.p, z.n); if (i1 < 0 || i1 > n) c.fail("tsRetrieve of \"%s\" into arrays of %d reports %d (status %d)", p.c_str(), n, i1, st); break; }
    case 1: { bool win = g.chance(50); c.note("tsGetSizes of \"%s\"", p.c_str()); hec_dss_tsGetSizes(f, path, win ? "15Jan2000" : "", win ? "0100" : "", win ? "20Mar2000" : "", win ? "2400" : "", &i1, &i2); Buf<char> a(L()), b(L()); hec_dss_tsRetrieveInfo(f, path, a.p, a.n, b.p, b.n); hec_dss_tsGetDateTimeRange(f, path, (int)g.draw(2), &i1, &i2, &i3, &i4); break; }
    case 2: { Buf<char> a(L()), b(L()), d(L()), e(L()), l(L()), z(L()); c.note("pdRetrieve of \"%s\"", p.c_str()); int st = hec_dss_pdRetrieveInfo(f, path, &i1, &i2, a.p, a.n, b.p, b.n, d.p, d.n, e.p, e.n, &i3); if (st == 0 && i1 >= 0 && i2 >= 0 && i1 < 10000 && i2 < 1000) { Buf<double> x(i1), y(i1 * i2); hec_dss_pdRetrieve(f, path, x.p, x.n, y.p, y.n, &i1, &i2, a.p, a.n, b.p, b.n, d.p, d.n, e.p, e.n, l.p, l.n, z.p, z.n); } break; }
    case 3: { Buf<char> b(L()); c.note("textRetrieve of \"%s\" into %d", p.c_str(), b.n); hec_dss_textRetrieve(f, path, b.p, b.n); break; }
    case 4: { Buf<int> a(L()); Buf<float> b(L()); Buf<double> d(L()); c.note("arrayRetrieve of \"%s\"", p.c_str()); hec_dss_arrayRetrieveInfo(f, path, &i1, &i2, &i3); hec_dss_arrayRetrieve(f, path, a.p, a.n, b.p, b.n, d.p, d.n); break; }
    case 5: { int r[11]; float fl[7]; Buf<char> b0(L()), b1(L()), b2(L()), b3(L()), b4(L()); Buf<float> br(n % 5), bd(n); Buf<int> be(n % 5); c.note("gridRetrieve of \"%s\"", p.c_str()); hec_dss_gridRetrieve(f, path, (int)g.draw(2), &r[0], &r[1], &r[2], &r[3], &r[4], &r[5], &r[6], &r[7], &r[8], &r[9], &r[10], b0.p, b0.n, b1.p, b1.n, b2.p, b2.n, b3.p, b3.n, b4.p, b4.n, &fl[0], &fl[1], &fl[2], &fl[3], &fl[4], &fl[5], &fl[6], br.p, br.n, be.p, bd.p, n); break; }
    default: { double x, y, z; int r[6]; Buf<char> a(L()), b(L()); c.note("locationRetrieve of \"%s\"", p.c_str()); hec_dss_locationRetrieve(f, path, &x, &y, &z, &r[0], &r[1], &r[2], &r[3], &r[4], &r[5], a.p, a.n, b.p, b.n); }
    }
  }
  // the date functions of the interface, against the calendar
  void dates() {
    for (int it = 0; it < 20; it++) {
      i64 j = c.s.range(cal::days(1, 1, 1), cal::days(9999, 12, 31)), y; int m, d; if (c.s.chance(70)) j = c.s.range(cal::days(1850, 1, 1), cal::days(2150, 12, 31)); cal::ymd(j, y, m, d);
      int Y = -9, M = -9, D = -9; hec_dss_julianToYearMonthDay((int)j, &Y, &M, &D); if (Y != y || M != m || D != d) c.fail("hec_dss_julianToYearMonthDay(%lld) gave %d-%d-%d, expected %lld-%d-%d", j, Y, M, D, y, m, d);
      static const char *MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; std::string t;
      switch (c.s.draw(3)) { case 0: t = fmt("%02d%s%04lld", d, MN[m - 1], y); break; case 1: t = fmt("%d %s %04lld", d, MN[m - 1], y); break; case 2: t = fmt("%s %d, %04lld", MN[m - 1], d, y); break; default: t = fmt("%04lld-%02d-%02d", y, m, d); }
      Str ts(t); int r = hec_dss_dateToJulian(ts); if (r != j) c.fail("hec_dss_dateToJulian(\"%s\") gave %d, expected %lld", t.c_str(), r, j);
      Y = M = D = -9; r = hec_dss_dateToYearMonthDay(ts, &Y, &M, &D); if (r || Y != y || M != m || D != d) c.fail("hec_dss_dateToYearMonthDay(\"%s\") gave status %d, %d-%d-%d", t.c_str(), r, Y, M, D);
      int iv = c.s.pick({60, 300, 900, 3600, 10800, 86400}); i64 n = c.s.range(0, 5000), t0 = c.s.range(-50000, 100000) * (i64)86400 + c.s.draw(86400 / iv - 1) * (i64)iv + iv, t1 = t0 + n * iv; int ja, sa, jb, sb; splitT(t0, ja, sa); splitT(t1, jb, sb);
      r = hec_dss_numberPeriods(iv, ja, sa, jb, sb); if (r != n) c.fail("hec_dss_numberPeriods(%d, %d, %d, %d, %d) gave %d, expected %lld", iv, ja, sa, jb, sb, r, n);
    }
    c.label("dates");
  }
  // a log file holds the messages it was given, line by line, in order
  void log() {
    std::string fn = c.path(fmt("log%d.txt", nlog++).c_str()), want; int nf = openFds(), st = hec_dss_open_log_file(fn.c_str()); if (st) c.fail("opening a log file gave %d", st);
    int n = (int)c.s.draw(5); auto read = [&] { std::string s; FILE *fp = fopen(fn.c_str(), "rb"); if (fp) { int ch; while ((ch = fgetc(fp)) != EOF) s += (char)ch; fclose(fp); } return s; };
    for (int i = 0; i < n; i++) {
      std::string m = c.s.text(c.s.draw(c.s.chance(10) ? 3000 : 60), "abc XYZ%sd-\t"); if (hec_dss_log_message(m.c_str()) != 0) c.fail("logging a message failed"); want += m + "\n";
      if (c.s.chance(30)) { st = hec_dss_flush_log_file(); if (st) c.fail("flushing the log file gave %d", st); if (read() != want) c.fail("the flushed log file has %zu bytes, expected the %zu of the messages so far", read().size(), want.size()); }
    }
    if (hec_dss_log_message(0) == 0) c.fail("a null message was accepted");
    hec_dss_close_log_file(); if (hec_dss_flush_log_file() == 0) c.fail("a closed log file can be flushed");
    if (read() != want) c.fail("the log file has %zu bytes, expected the %zu of the messages", read().size(), want.size());
    if (openFds() != nf) c.fail("%d files are open after closing the log, %d before", openFds(), nf); unlink(fn.c_str()); c.label("log file");
  }
  int nlog = 0;
};
void prop(Case &c) {
  quiet(); Run r(c); auto &g = c.s; r.file = c.path("c.dss"); r.foreign = g.chance(25);
  if (r.foreign) { Dss d; int h, b; genConfig(c, h, b); int st = d.openFile(r.file, 0, h, b); if (st) c.fail("open gave %d", st); mixPopulate(c, d, (int)g.range(2, 12)); d.close(); }
  r.open(); int ops = (int)g.range(3, c.tier ? 30 : 18); int nk = 0;
  for (int i = 0; i < ops; i++) {
    int live = 0; for (auto &o : r.objs) live += o.exists; int op = (int)g.weighted({live ? 35 : 90, live ? 45 : 0, 8, 4, 4, r.foreign ? 60 : 5, 3, 3});
    if (op == 0) { if (r.objs.empty() || g.chance(60)) r.objs.push_back(r.make((int)g.draw(KN), nk++)); r.store(r.objs[g.chance(60) ? r.objs.size() - 1 : g.draw(r.objs.size())]); }
    else if (op == 1) { int k = (int)g.draw(live); for (auto &o : r.objs) if (o.exists && k-- == 0) { r.read(o); break; } }
    else if (op == 2) r.catalog();
    else if (op == 6) r.dates();
    else if (op == 7) r.log();
    else if (op == 3 && live) { int k = (int)g.draw(live); for (auto &o : r.objs) if (o.exists && k-- == 0) { if (o.kind == REG || o.kind == IRR || o.kind == LOC) break; c.note("delete \"%s\"", o.path.c_str()); int st = hec_dss_delete(r.f, Str(o.path)); if (st) c.fail("delete of \"%s\" gave %d", o.path.c_str(), st); o.exists = false; o.v.clear(); o.q.clear(); if (hec_dss_recordType(r.f, Str(o.path)) != -1) c.fail("\"%s\" still has a record type after its deletion", o.path.c_str()); break; } }
    else if (op == 4) { bool sq = g.chance(50); c.note(sq ? "close, squeeze, open" : "close, open"); r.close(); if (sq) { int st = hec_dss_squeeze(r.file.c_str()); if (st) c.fail("squeeze gave %d", st); } r.open(); if (hec_dss_getFileVersion(r.file.c_str()) != 7 || hec_dss_getVersion(r.f) != 7) c.fail("the file version is not 7"); }
    else if (op == 5) { auto l = r.cat(0); if (!l.empty()) for (int k = 0; k < 3; k++) r.anything(l[g.draw(l.size())].first); }
  }
  for (auto &o : r.objs) if (o.exists) r.read(o);
  r.close(); c.label("%s", r.foreign ? "foreign records" : "own records only"); for (auto &o : r.objs) if (o.exists) c.label("%s", kname[o.kind]); if (r.tight) c.label("a buffer shorter than needed"); if (r.reads >= 2 && r.tight) c.nontrivial();
}
static eng::Reg r({"C19", "a case counts when at least two stored objects were read back through the exported interface and at least one string buffer was no longer than needed", prop, 6000, 60000, "exploration",
  {"strings are printable ASCII without leading or trailing blanks (the library trims), except text records, which hold any bytes but NUL", "offsets of series of a minute or more are whole minutes (the interface returns times in minutes)", "time-series patterns have no quality (the library does not return it)", "numeric output pointers that the interface requires are never null"}});
}
