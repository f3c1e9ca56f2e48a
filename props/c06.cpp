// C06: paired data - full stores, pre-allocation, stores of curve / ordinate
// blocks and reads of any sub-range, against a table model.
#include "rawstore.hpp"
#include <cfloat>
namespace {
typedef std::string S; typedef std::vector<double> DV;
struct Pd { bool dbl = false; int no = 0, nc = 0; DV ord, val; S u[2], t[2], tz; int xaxis = 0, xp = -1, yp = -1; bool haveLab = false; std::vector<S> lab; IV uh; };
static S word(Case &c, int lo, int hi) { static const char A[] = "ABCdefg hij-klm/nop_qrs.tuv()0123456789"; S s; int n = (int)c.s.range(lo, hi); uint32_t h = (uint32_t)c.s.draw(1000); for (int i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; char ch = A[(h >> 16) % (sizeof A - 1)]; if (ch == ' ' && (i == 0 || i == n - 1)) ch = 'x'; s.push_back(ch); } return s; }
static DV nums(Case &c, int64_t n, bool dbl) { DV v(n); int kind = (int)c.s.draw(5); uint32_t h = (uint32_t)c.s.draw(1 << 20); for (auto &x : v) { h = h * 1664525u + 1013904223u; uint32_t r = h >> 8; x = kind == 0 ? (double)(r % 1000) : kind == 1 ? ((double)(r % 200001) - 100000) / 8 : kind == 2 ? r / 7.0 : kind == 3 ? (r % 5 ? 0.0 : -(double)FLT_MAX) : std::ldexp((double)r + 0.5, (int)(r % 200) - 100); if (!dbl) x = (float)x; } return v; }
static bool sameHdr(int *u, int n, const IV &e) { IV g; if (u) g.assign(u, u + n); if (g == e) return true; if (!(e.size() & 1) || g.size() != e.size() + 1 || g.back() != 0x20202020) return false; g.pop_back(); return g == e; }
static double conv(double x, bool fromDbl, bool toDbl) { return fromDbl && !toDbl ? (double)(float)x : x; }
static S join(const std::vector<S> &v, int a, int b) { S o; for (int i = a; i < b; i++) { o += v[i]; o.push_back(0); } return o; }
static S vis(S s) { for (auto &ch : s) if (!ch) ch = '|'; return s; }

static void check(Case &c, Dss &d, const S &path, const Pd *m, bool sub) {
  zStructPairedData *p = zstructPdNew(path.c_str()); int flag = (int)c.s.draw(3); int c1 = 0, c2 = 0, o1 = 0, o2 = 0; int how = 0;
  if (sub && m) { // a sub-range of curves, of ordinates or of both
    how = (int)c.s.draw(3); if (how != 1) { c1 = (int)c.s.range(1, m->nc); c2 = (int)c.s.range(c1, m->nc); } if (how != 0) { o1 = (int)c.s.range(1, m->no); o2 = (int)c.s.range(o1, m->no); }
    if (c2 == m->nc && c1 > 1 && c.s.chance(20)) c2 = 0; if (o2 == m->no && o1 > 1 && c.s.chance(20)) o2 = 0; if (c2 == m->nc && c.s.chance(10)) c2 += 3; if (o2 == m->no && c.s.chance(10)) o2 += 3;
  }
  p->startingCurve = c1; p->endingCurve = c2; p->startingOrdinate = o1; p->endingOrdinate = o2; int st = zpdRetrieve(d.ifltab, p, flag);
  if (!m) { if (st == 0) c.fail("%s was never stored but was retrieved", path.c_str()); zstructFree(p); return; }
  S W = fmt("%s (curves %d-%d, ordinates %d-%d, flag %d)", path.c_str(), c1, c2, o1, o2, flag); if (st) c.fail("retrieving %s gave %d", W.c_str(), st);
  int a = c1 ? c1 - 1 : 0, b = c2 ? std::min(c2, m->nc) : m->nc, r0 = o1 ? o1 - 1 : 0, r1 = o2 ? std::min(o2, m->no) : m->no; bool asD = flag == 0 ? m->dbl : flag == 2;
  if (p->numberOrdinates != m->no || p->numberCurves != m->nc || p->numberOrdinatesInStruct != r1 - r0 || p->numberCurvesInStruct != b - a) c.fail("%s reports %d of %d ordinates, %d of %d curves; expected %d of %d, %d of %d", W.c_str(), p->numberOrdinatesInStruct, p->numberOrdinates, p->numberCurvesInStruct, p->numberCurves, r1 - r0, m->no, b - a, m->nc);
  if (asD ? !p->doubleOrdinates || !p->doubleValues : !p->floatOrdinates || !p->floatValues) c.fail("%s returned no %s arrays", W.c_str(), asD ? "double" : "float");
  if (p->sizeEachValueRead != (m->dbl ? 2 : 1) || p->dataType != (m->dbl ? DATA_TYPE_PDD : DATA_TYPE_PD)) c.fail("%s has value size %d type %d", W.c_str(), p->sizeEachValueRead, p->dataType);
  for (int i = r0; i < r1; i++) { double g = asD ? p->doubleOrdinates[i - r0] : p->floatOrdinates[i - r0], e = conv(m->ord[i], m->dbl, asD); if (g != e) c.fail("ordinate %d of %s is %.17g, expected %.17g", i + 1, W.c_str(), g, e); }
  for (int k = a; k < b; k++) for (int i = r0; i < r1; i++) { int j = (k - a) * (r1 - r0) + i - r0; double g = asD ? p->doubleValues[j] : p->floatValues[j], e = conv(m->val[k * m->no + i], m->dbl, asD); if (g != e) c.fail("curve %d ordinate %d of %s is %.17g, expected %.17g", k + 1, i + 1, W.c_str(), g, e); }
  auto str = [&](const char *what, const char *g, const S &e) { if (S(g ? g : "") != e) c.fail("the %s of %s is \"%s\", stored \"%s\"", what, W.c_str(), g ? g : "(null)", e.c_str()); };
  str("independent units", p->unitsIndependent, m->u[0]); str("independent type", p->typeIndependent, m->t[0]); str("dependent units", p->unitsDependent, m->u[1]); str("dependent type", p->typeDependent, m->t[1]); str("time zone", p->timeZoneName, m->tz);
  if (p->boolIndependentIsXaxis != m->xaxis || p->xprecision != m->xp || p->yprecision != m->yp) c.fail("%s has axis flag %d precisions %d %d, stored %d %d %d", W.c_str(), p->boolIndependentIsXaxis, p->xprecision, p->yprecision, m->xaxis, m->xp, m->yp);
  S gl(p->labels ? p->labels : "", p->labels ? p->labelsLength : 0), el = m->haveLab ? join(m->lab, a, b) : S(); if (gl != el) c.fail("the labels of %s are \"%s\", expected \"%s\"", W.c_str(), vis(gl).c_str(), vis(el).c_str());
  if (!sub && !sameHdr(p->userHeader, p->userHeaderNumber, m->uh)) c.fail("the user header of %s differs", W.c_str());
  zstructFree(p);
}
static void runC06(Case &c) {
  quiet(); Dss d; S f = c.path("p.dss"); if (d.openFile(f)) c.fail("cannot create a file");
  std::vector<S> ps; int np = (int)c.s.range(1, 3); for (int i = 0; i < np; i++) ps.push_back(fmt("/A/B%d/Stage-Flow///V/", i)); std::map<S, Pd> m; int n = (int)c.s.range(2, 14);
  for (int it = 0; it < n; it++) {
    S &path = ps[c.s.draw(np)]; bool have = m.count(path); int op = (int)c.s.weighted({30, have ? 40 : 0, 25, 5});
    if (op == 0) {
      Pd r; bool inD = c.s.chance(50); int flag = c.s.pick({0, 0, 0, 1, 2, 10, 11, 12}); r.dbl = flag % 10 == 0 ? inD : flag % 10 == 2; r.no = (int)(c.s.chance(15) ? c.s.range(1, 400) : c.s.range(1, 12)); r.nc = (int)(c.s.chance(10) ? c.s.range(1, 40) : c.s.range(1, 6));
      DV o = nums(c, r.no, inD), v = nums(c, (int64_t)r.no * r.nc, inD); bool pre = flag >= 10; std::vector<float> fo(o.begin(), o.end()), fv(v.begin(), v.end()); int L = c.s.chance(10) ? 50 : 12;
      for (int i = 0; i < 2; i++) { r.u[i] = word(c, c.s.chance(10) ? 0 : 1, L); r.t[i] = word(c, c.s.chance(10) ? 0 : 1, L); } if (c.s.chance(40)) r.tz = word(c, 1, 20); r.xaxis = (int)c.s.draw(2); if (c.s.chance(50)) { r.xp = (int)c.s.draw(10); r.yp = (int)c.s.draw(10); }
      if (c.s.chance(50)) { r.haveLab = true; int w = c.s.pick({1, 6, 12, 30}); for (int i = 0; i < r.nc; i++) r.lab.push_back(word(c, c.s.chance(15) ? 0 : 1, w)); if (join(r.lab, 0, r.nc).size() == (size_t)r.nc) r.lab[0] = "x"; } if (c.s.chance(30)) { genIV(c, r.uh, c.s.range(1, 20)); if (r.uh.size() & 1) for (auto &w : r.uh) w |= 0x01010101; }
      zStructPairedData *p = zstructPdNew(path.c_str()); if (inD) p->doubleOrdinates = o.data(); else p->floatOrdinates = fo.data(); if (!pre || c.s.chance(30)) { if (inD) p->doubleValues = v.data(); else p->floatValues = fv.data(); }
      p->numberOrdinates = r.no; p->numberCurves = r.nc; S u0 = r.u[0], u1 = r.u[1], t0 = r.t[0], t1 = r.t[1], tz = r.tz, lb = join(r.lab, 0, (int)r.lab.size()); p->unitsIndependent = &u0[0]; p->unitsDependent = &u1[0]; p->typeIndependent = &t0[0]; p->typeDependent = &t1[0]; if (!tz.empty()) p->timeZoneName = &tz[0]; std::vector<char> lv(lb.begin(), lb.end()); if (r.haveLab) p->labels = lv.data(), p->labelsLength = (int)lv.size();
      p->boolIndependentIsXaxis = r.xaxis; p->xprecision = r.xp; p->yprecision = r.yp; IV uh = r.uh; if (uh.size()) p->userHeader = uh.data(), p->userHeaderNumber = (int)uh.size(); int st = zpdStore(d.ifltab, p, flag);
      p->doubleOrdinates = p->doubleValues = 0; p->floatOrdinates = p->floatValues = 0; p->unitsIndependent = p->unitsDependent = p->typeIndependent = p->typeDependent = p->timeZoneName = p->labels = 0; p->userHeader = 0; zstructFree(p);
      c.note("store %s %dx%d %s flag %d labels %zu uh %zu -> %d", path.c_str(), r.no, r.nc, inD ? "double" : "float", flag, lb.size(), r.uh.size(), st); if (st) c.fail("storing %s gave %d", path.c_str(), st);
      r.ord.resize(r.no); r.val.assign((size_t)r.no * r.nc, 0.0); for (int i = 0; i < r.no; i++) r.ord[i] = conv(o[i], inD, r.dbl); if (!pre) for (size_t i = 0; i < v.size(); i++) r.val[i] = conv(v[i], inD, r.dbl); c.label(pre ? "pre-allocated" : have ? "overwritten" : "stored"); m[path] = r; check(c, d, path, &m[path], false);
    } else if (op == 1) {
      Pd &r = m[path]; int how = (int)c.s.draw(3); int c1 = 0, c2 = 0, o1 = 0, o2 = 0; if (how != 1) { c1 = (int)c.s.range(1, r.nc); c2 = c.s.chance(50) ? c1 : (int)c.s.range(c1, r.nc); } if (how != 0) { o1 = (int)c.s.range(1, r.no); o2 = c.s.chance(30) ? o1 : (int)c.s.range(o1, r.no); }
      int a = c1 ? c1 - 1 : 0, b = c2 ? c2 : r.nc, r0 = o1 ? o1 - 1 : 0, r1 = o2 ? o2 : r.no; bool inD = c.s.chance(50); DV v = nums(c, (int64_t)(b - a) * (r1 - r0), inD); std::vector<float> fv(v.begin(), v.end());
      zStructPairedData *p = zstructPdNew(path.c_str()); if (inD) p->doubleValues = v.data(); else p->floatValues = fv.data(); p->startingCurve = c1; p->endingCurve = c2; p->startingOrdinate = o1; p->endingOrdinate = o2; if (c.s.chance(30) && !(r0 == 0 && r1 == r.no && a == 0 && b == r.nc)) { p->numberOrdinates = r.no; p->numberCurves = r.nc; }
      std::vector<S> nl; if (c1 && c.s.chance(40)) for (int i = a; i < b; i++) nl.push_back(word(c, c.s.chance(20) ? 0 : 1, c.s.pick({3, 10, 30}))); S lb = join(nl, 0, (int)nl.size()); std::vector<char> lv(lb.begin(), lb.end()); if (nl.size()) p->labels = lv.data(), p->labelsLength = (int)lv.size();
      int st = zpdStore(d.ifltab, p, 0); p->doubleValues = 0; p->floatValues = 0; p->labels = 0; zstructFree(p); c.note("part %s curves %d-%d ordinates %d-%d %s labels \"%s\" -> %d", path.c_str(), c1, c2, o1, o2, inD ? "double" : "float", vis(lb).c_str(), st);
      if (st) c.fail("storing curves %d-%d ordinates %d-%d of %s gave %d", c1, c2, o1, o2, path.c_str(), st); for (int k = a; k < b; k++) for (int i = r0; i < r1; i++) r.val[k * r.no + i] = conv(v[(k - a) * (r1 - r0) + i - r0], inD, r.dbl); if (nl.size() && !r.haveLab) r.haveLab = true, r.lab.assign(r.nc, ""); for (size_t i = 0; i < nl.size(); i++) r.lab[a + i] = nl[i]; c.label("partial store"); if (nl.size()) c.label("partial labels"); c.nontrivial(); check(c, d, path, &r, false);
    } else if (op == 2) { check(c, d, path, have ? &m[path] : nullptr, c.s.chance(75)); c.evals(1); }
    else { d.close(); if (d.openFile(f)) c.fail("cannot reopen"); }
  }
  for (auto &p : ps) check(c, d, p, m.count(p) ? &m[p] : nullptr, false);
  if (zcheckFile(d.ifltab)) c.fail("the file check reports an error"); d.close();
}
}
static eng::Reg r({"C06", "part of the curves or ordinates of a stored record was replaced", runC06, 6000, 80000, "exploration", {"units, types and time zone of at most 300 characters together", "parts are addressed by starting and ending numbers that are both given (ending may be left 0)"}});
