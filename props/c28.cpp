// C28: precision conversion and missing flags, bit for bit.
#include "ts.hpp"
extern "C" { void convertDataArray(int *dataIn, int *dataOut, int number, int dataInElementLength, int dataOutElementLength); void doublesToFloats(int *values, int n); void floatsToDoubles(int *values, int n); int zisMissing(void *value, int lengthValue); void zsetMissing(int *value, int lengthValue); }
namespace {
typedef std::string S; typedef std::vector<double> VD; typedef std::vector<float> VF;
uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
uint32_t bitsf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
double fromBits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
float fromBitsF(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
const double FM = (double)FLT_MAX;
// special and ordinary numbers; the missing flag is -FLT_MAX, with neighbours that are ordinary values
double genD(Case &c) {
  auto &s = c.s;
  switch (s.weighted({30, 25, 15, 15, 15})) {
    case 0: return (double)s.range(-4000, 4000) / 8;
    case 1: return s.pick({0.0, -0.0, 1.0, -1.0, (double)FLT_MIN, -(double)FLT_MIN, (double)FLT_TRUE_MIN, -(double)FLT_TRUE_MIN, FM, (double)nextafterf(-FLT_MAX, 0), -900.0, -903.0, 901.0, (double)nextafterf(-901.f, 0), (double)nextafterf(-902.f, -1000), DBL_MIN, DBL_TRUE_MIN, -DBL_TRUE_MIN, 1e-40, -1e-300, 0.1, 1.0 / 3, 16777217.0, -16777217.0, 123456789.123, nextafter(1.0, 2), nextafter(-901.0, 0), 3e38, -3.4e38});
    case 2: { float f = fromBitsF((uint32_t)s.draw(1ull << 32)); return f != f || std::isinf(f) ? 0.5 : (double)f; }
    case 3: { double d = fromBits(((uint64_t)s.draw(1ull << 32) << 32) | s.draw(1ull << 32)); return d != d || fabs(d) > 3e38 ? -0.0 : d; }
    default: return s.pick({MISS(), MISS(), -901.0, -902.0});
  }
}
VD genArr(Case &c, int64_t n, bool dbl) {
  VD v(n); VD pool; int k = (int)c.s.range(1, 12); for (int i = 0; i < k; i++) pool.push_back(genD(c)); int kind = (int)c.s.draw(3); uint32_t h = (uint32_t)c.s.draw(1u << 30); int run = 1 + (int)c.s.draw(6);
  for (int64_t i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; double x = kind == 0 ? pool[(h >> 12) % k] : kind == 1 ? pool[i / run % k] : ((h >> 13) % 3 ? (double)(h >> 8) * (dbl ? 1.0 / 3 : 1) : pool[(h >> 20) % k]); v[i] = dbl ? x : (double)(float)x; }
  return v;
}
bool same(double want, double got, bool asDouble) { return asDouble ? bits(want) == bits(got) : bitsf((float)want) == bitsf((float)got); }
// got holds what was returned (floats widened exactly)
// (-901 and -902 also mean missing; at the ends of a block of a regular series they may come back as the usual flag)
void cmp(Case &c, const char *what, const VD &want, const VD &got, bool asDouble, bool reg = false) {
  if (want.size() != got.size()) c.fail("%s: %zu values, not %zu", what, got.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) if (!same(want[i], got[i], asDouble) && !(reg && isMiss(want[i]) && got[i] == MISS())) c.fail("%s: value %zu, stored as %.17g (%016lx), read as %s, is %.17g (%016lx)", what, i, want[i], (unsigned long)bits(want[i]), asDouble ? "double" : "float", got[i], (unsigned long)bits(got[i]));
}
void utilities(Case &c) {
  auto &g = c.s; int n = (int)g.size(300); VD v = genArr(c, n, true); VF f(v.begin(), v.end());
  { std::vector<int> a(2 * n + 1); if (n) memcpy(a.data(), v.data(), 8 * n); std::vector<int> b(2 * n); if (n) memcpy(b.data(), v.data(), 8 * n); if (g.chance(50)) doublesToFloats(b.data(), n); else convertDataArray(b.data(), b.data(), n, 2, 1); for (int i = 0; i < n; i++) { uint32_t u; memcpy(&u, &b[i], 4); if (u != bitsf(f[i])) c.fail("double %.17g made a float in place is %08x, not %08x", v[i], u, bitsf(f[i])); }
    std::vector<int> o(n); convertDataArray(a.data(), o.data(), n, 2, 1); for (int i = 0; i < n; i++) if ((uint32_t)o[i] != bitsf(f[i])) c.fail("double %.17g converted to float is %08x", v[i], (unsigned)o[i]); }
  { std::vector<int> b(2 * n); if (n) memcpy(b.data(), f.data(), 4 * n); if (g.chance(50)) floatsToDoubles(b.data(), n); else convertDataArray(b.data(), b.data(), n, 1, 2); for (int i = 0; i < n; i++) { double d; memcpy(&d, &b[2 * i], 8); if (bits(d) != bits((double)f[i])) c.fail("float %.9g made a double in place is %.17g", f[i], d); }
    std::vector<int> a(n), o(2 * n); if (n) memcpy(a.data(), f.data(), 4 * n); convertDataArray(a.data(), o.data(), n, 1, 2); for (int i = 0; i < n; i++) { double d; memcpy(&d, &o[2 * i], 8); if (bits(d) != bits((double)f[i])) c.fail("float %.9g converted to double is %.17g", f[i], d); }
    std::vector<int> same1(n), same2(2 * n), src(2 * n); if (n) memcpy(src.data(), v.data(), 8 * n); convertDataArray(src.data(), same2.data(), n, 2, 2); if (same2 != src) c.fail("copying doubles changes them"); convertDataArray(a.data(), same1.data(), n, 1, 1); if (same1 != a) c.fail("copying floats changes them"); }
  // the flags
  float mf = 0; double md = 0; zsetMissing((int *)&mf, 1); zsetMissing((int *)&md, 2);
  if (bitsf(mf) != bitsf(-FLT_MAX) || bits(md) != bits(-FM) || bits((double)mf) != bits(md)) c.fail("the missing flag is %g / %g", mf, md);
  for (int i = 0; i < n; i++) {
    bool wd = v[i] == -FM || v[i] == -901 || v[i] == -902, wf = f[i] == -FLT_MAX || f[i] == -901 || f[i] == -902;
    if (!!zisMissingDouble(v[i]) != wd || !!zisMissing(&v[i], 2) != wd) c.fail("zisMissingDouble(%.17g) is wrong", v[i]); if (!!zisMissingFloat(f[i]) != wf || !!zisMissing(&f[i], 1) != wf) c.fail("zisMissingFloat(%.9g) is wrong", f[i]);
  }
  if (bitsf(zmissingFlag()) != bitsf(mf) || bitsf(zmissingFlagFloat()) != bitsf(mf) || bits(zmissingFlagDouble()) != bits(md)) c.fail("the missing flags differ between the functions that give them");
  { int a = (int)g.draw(n), k = (int)g.draw(n - a); VF x = f; VD y = v; std::vector<int> z(n, 7); zsetMissingFloatArray(x.data() + a, k); zsetMissingDoubleArray(y.data() + a, k); zsetUndefined(z.data() + a, k);
    for (int i = 0; i < n; i++) { bool in = i >= a && i < a + k; if (bitsf(x[i]) != bitsf(in ? mf : f[i]) || bits(y[i]) != bits(in ? md : v[i]) || z[i] != (in ? 0 : 7)) c.fail("setting values %d to %d of %d missing leaves value %d %.9g / %.17g / %d", a, a + k - 1, n, i, x[i], y[i], z[i]); } }
  if (n) c.nontrivial(); c.label("conversion functions");
}
void series(Case &c, bool irr) {
  auto &g = c.s; int hash, bin; genConfig(c, hash, bin); Dss d; if (d.openFile(c.path("t.dss"), 0, hash, bin)) c.fail("cannot create a file");
  int iv = 3600; const char *e = "1Hour"; if (g.chance(30)) { iv = 86400; e = "1Day"; } else if (g.chance(15)) { iv = 60; e = "1Minute"; } S path = irr ? "/C28/B/FLOW//IR-Month/F/" : fmt("/C28/B/FLOW//%s/F/", e);
  i64 t0 = cal::days(2000, (int)g.range(1, 12), (int)g.range(1, 28)) * cal::DAY; std::map<i64, double> m; int ops = (int)g.range(1, 4); bool anyD = false, anyF = false, mixed = g.chance(40), firstD = g.chance(50);
  for (int k = 0; k < ops; k++) {
    TsIn a; a.dbl = mixed ? g.chance(50) : firstD; i64 n = g.range(1, g.chance(30) ? 900 : 60); a.v = genArr(c, n, a.dbl); (a.dbl ? anyD : anyF) = true;
    if (irr) { i64 t = t0 + g.range(0, 2000) * 3600; for (i64 i = 0; i < n; i++) { a.times.push_back(t); t += 60 * (1 + (i * 7919 % 13) * (iv / 600)); } a.flag = g.pick({0, 0, 1}); }
    else { a.start = t0 + g.range(0, 700) * iv; a.flag = g.pick({0, 2}); }
    c.note("store %lld %s %s flag %d from %s", (long long)n, a.dbl ? "doubles" : "floats", irr ? "irregular" : e, a.flag, cal::str(irr ? a.times[0] : a.start).c_str());
    bool allMiss = true; for (double x : a.v) allMiss &= isMiss(x); if (!irr && a.flag == 0 && allMiss) a.flag = 2;
    int st = tsStore(d, path, a); if (st) c.fail("store gives %d", st);
    if (irr && a.flag == 1) m.erase(m.lower_bound(a.times.front()), m.upper_bound(a.times.back()));
    for (i64 i = 0; i < n; i++) m[irr ? a.times[i] : a.start + i * iv] = a.v[i];
    if (g.chance(20)) { d.close(); if (d.openFile(c.path("t.dss"))) c.fail("reopen"); }
  }
  i64 lo = m.begin()->first, hi = m.rbegin()->first;
  for (int k = 0; k < 4; k++) {
    TsQ q; q.window = true; q.dbl = k < 3 ? k : (int)g.draw(3); q.start = lo; q.end = hi; if (k == 3) { q.start = lo + g.range(0, (hi - lo) / iv) * iv; q.end = q.start + g.range(0, (hi - q.start) / iv) * iv; }
    VD want; if (irr) { for (auto it = m.lower_bound(q.start); it != m.end() && it->first <= q.end; ++it) want.push_back(it->second); } else for (i64 t = q.start; t <= q.end; t += iv) { auto it = m.find(t); want.push_back(it == m.end() ? MISS() : it->second); }
    TsOut o = tsGet(d, path, q); if (want.empty()) continue; bool all = true; for (double x : want) all &= isMiss(x); if (o.status && all && !irr) continue; if (o.status) c.fail("retrieve as %d gives %d", q.dbl, o.status);
    if (q.dbl == 1 && o.dbl) c.fail("doubles returned, floats asked for"); if (q.dbl == 2 && !o.dbl) c.fail("floats returned, doubles asked for"); if (q.dbl == 0 && !(anyD && anyF) && o.dbl != anyD) c.fail("stored as %s, returned as stored in %s", anyD ? "double" : "float", o.dbl ? "double" : "float");
    cmp(c, irr ? "irregular series" : "regular series", want, o.v, o.dbl, !irr); c.evals(k + 1);
  }
  c.label("%s %s", irr ? "irregular" : "regular", anyD && anyF ? "mixed" : anyD ? "double" : "float"); c.nontrivial(); d.close();
}
void paired(Case &c) {
  auto &g = c.s; int hash, bin; genConfig(c, hash, bin); Dss d; if (d.openFile(c.path("t.dss"), 0, hash, bin)) c.fail("cannot create a file"); const char *path = "/C28/B/STAGE-FLOW///F/";
  for (int k = (int)g.range(1, 3); k-- > 0;) {
    bool dbl = g.chance(50); int n = (int)g.range(1, 80), cv = (int)g.range(1, 5); VD x = genArr(c, n, dbl), y = genArr(c, (int64_t)n * cv, dbl); int flag = g.pick({0, 0, 1, 2}); bool keptD = flag == 0 ? dbl : flag == 2;
    zStructPairedData *p = zstructPdNew(path); VF fx(x.begin(), x.end()), fy(y.begin(), y.end()); VD dx = x, dy = y; p->numberOrdinates = n; p->numberCurves = cv; if (dbl) { p->doubleOrdinates = dx.data(); p->doubleValues = dy.data(); } else { p->floatOrdinates = fx.data(); p->floatValues = fy.data(); }
    S u1 = "FEET", u2 = "CFS", t1 = "LINEAR"; p->unitsIndependent = &u1[0]; p->unitsDependent = &u2[0]; p->typeIndependent = &t1[0]; p->typeDependent = &t1[0];
    int st = zpdStore(d.ifltab, p, flag); p->doubleOrdinates = p->doubleValues = 0; p->floatOrdinates = p->floatValues = 0; p->unitsIndependent = p->unitsDependent = p->typeIndependent = p->typeDependent = 0; zstructFree(p);
    c.note("paired data %d x %d %s stored with flag %d", n, cv, dbl ? "double" : "float", flag); if (st) c.fail("paired data store (flag %d) gives %d", flag, st);
    for (int q = 0; q < 3; q++) {
      zStructPairedData *r = zstructPdNew(path); bool sub = g.chance(30); int o0 = 1, o1 = n, c0 = 1, c1 = cv; if (sub) { o0 = (int)g.range(1, n); o1 = (int)g.range(o0, n); c0 = (int)g.range(1, cv); c1 = (int)g.range(c0, cv); r->startingOrdinate = o0; r->endingOrdinate = o1; r->startingCurve = c0; r->endingCurve = c1; }
      st = zpdRetrieve(d.ifltab, r, q); if (st) c.fail("paired data retrieve as %d gives %d", q, st); bool asD = q == 0 ? keptD : q == 2; if ((r->doubleValues != 0) != asD || (r->floatValues != 0) == asD) c.fail("paired data asked for with flag %d come as %s", q, r->doubleValues ? "doubles" : "floats");
      VD wo, wv, go, gv; int no = o1 - o0 + 1, ncv = c1 - c0 + 1; auto kept = [&](double a) { return keptD ? a : (double)(float)a; }; for (int i = o0; i <= o1; i++) wo.push_back(kept(x[i - 1])); for (int j = c0; j <= c1; j++) for (int i = o0; i <= o1; i++) wv.push_back(kept(y[(size_t)(j - 1) * n + i - 1]));
      if (asD) { go.assign(r->doubleOrdinates, r->doubleOrdinates + no); gv.assign(r->doubleValues, r->doubleValues + (size_t)no * ncv); } else { go.assign(r->floatOrdinates, r->floatOrdinates + no); gv.assign(r->floatValues, r->floatValues + (size_t)no * ncv); }
      cmp(c, "ordinates", wo, go, asD); cmp(c, "curves", wv, gv, asD); zstructFree(r);
    }
    c.label("paired data, %s stored as %s", dbl ? "double" : "float", keptD ? "double" : "float");
  }
  c.nontrivial(); d.close();
}
void runC28(Case &c) { quiet(); switch (c.s.weighted({35, 25, 25, 15})) { case 0: series(c, false); break; case 1: series(c, true); break; case 2: paired(c); break; default: utilities(c); } }
eng::Reg r({"C28", "values were stored and read back in some precision (or converted)", runC28, 8000, 150000, "exploration", {"doubles within the range of a float", "conversion to float rounds to nearest, as the C cast does", "no NaN or infinity"}});
}
