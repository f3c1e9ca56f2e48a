// C25: profile and pattern series keep their shape.
#include "ts.hpp"
namespace {
typedef std::string S; typedef std::vector<double> VD;
struct Prof { bool irr, dbl; int iv; S e, path; int nd; VD depths; S ud, uv, type, tz; RegTime rt; std::map<i64, VD> m; /* slot (regular) or instant */ std::map<i64, int> q; bool haveQ = false, exists = false; int precision = -1; int gran = 60; i64 lo = 0, hi = 0; };
struct PIn { std::vector<i64> keys; std::vector<VD> rows; int flag = 0; std::vector<int> q; bool clone = false; };
struct POut { int status = 0, nv = 0, nd = 0, dataType = 0, sizeEach = 0, precision = 0; bool dbl = false, haveT = false, haveQ = false; VD depths; std::vector<VD> rows; std::vector<i64> t; std::vector<int> q; S ud, uv, type, tz; i64 start = 0, end = 0; };
bool missRow(const VD &r) { for (double x : r) if (!isMiss(x)) return false; return true; }
double val(Case &c, bool dbl) { double x = c.s.chance(15) ? MISS() : c.s.chance(20) ? 7.0 : dbl ? (double)c.s.range(-100000, 100000) / 7 : (double)c.s.range(-8000, 8000) / 8; return x; }
int pStore(Dss &d, const Prof &p, const PIn &a) {
  int n = (int)a.keys.size(); zStructTimeSeries *t = zstructTsNew(p.path.c_str()); std::vector<float> fd(p.depths.begin(), p.depths.end()), fv; VD dd = p.depths, dv;
  for (auto &r : a.rows) for (double x : r) { dv.push_back(x); fv.push_back((float)x); }
  t->profileDepthsNumber = p.nd; t->numberValues = n; if (p.dbl) { t->doubleProfileDepths = dd.data(); t->doubleProfileValues = dv.data(); } else { t->floatProfileDepths = fd.data(); t->floatProfileValues = fv.data(); }
  S ud = p.ud, uv = p.uv, ty = p.type, tz = p.tz; t->unitsProfileDepths = &ud[0]; t->unitsProfileValues = &uv[0]; t->type = &ty[0]; if (!tz.empty()) t->timeZoneName = &tz[0]; t->precision = p.precision;
  std::vector<int> tm, q = a.q; if (p.irr) { for (i64 k : a.keys) tm.push_back((int)(k / p.gran)); t->times = tm.data(); t->timeGranularitySeconds = p.gran; } else { int j, s; splitT(p.rt.at(a.keys[0]), j, s); t->startJulianDate = j; t->startTimeSeconds = s; }
  if (!q.empty()) { t->quality = q.data(); t->qualityElementSize = 1; }
  int st; if (a.clone) { zStructTimeSeries *k = zstructTsClone(t, p.path.c_str()); st = k ? ztsStore(d.ifltab, k, a.flag) : -99; if (k) zstructFree(k); } else st = ztsStore(d.ifltab, t, a.flag);
  t->doubleProfileDepths = t->doubleProfileValues = 0; t->floatProfileDepths = t->floatProfileValues = 0; t->unitsProfileDepths = t->unitsProfileValues = t->type = t->timeZoneName = 0; t->times = 0; t->quality = 0; zstructFree(t); return st;
}
POut pGet(Dss &d, const Prof &p, bool window, i64 a, i64 b, int flag, int dbl, int notes, int gran) {
  POut o; zStructTimeSeries *t = zstructTsNew(p.path.c_str()); if (window) { int j, s; splitT(a, j, s); t->startJulianDate = j; t->startTimeSeconds = s; splitT(b, j, s); t->endJulianDate = j; t->endTimeSeconds = s; } else t->boolRetrieveAllTimes = 1;
  t->timeGranularitySeconds = gran; o.status = ztsRetrieve(d.ifltab, t, flag, dbl, notes); int n = o.nv = t->numberValues; o.nd = t->profileDepthsNumber;
  if (o.status == 0 && n > 0) {
    o.dbl = t->doubleProfileValues != 0; if (t->doubleProfileValues) for (int i = 0; i < n; i++) o.rows.emplace_back(t->doubleProfileValues + (size_t)i * o.nd, t->doubleProfileValues + (size_t)(i + 1) * o.nd); else if (t->floatProfileValues) for (int i = 0; i < n; i++) o.rows.emplace_back(t->floatProfileValues + (size_t)i * o.nd, t->floatProfileValues + (size_t)(i + 1) * o.nd);
    if (t->doubleProfileDepths) o.depths.assign(t->doubleProfileDepths, t->doubleProfileDepths + o.nd); else if (t->floatProfileDepths) o.depths.assign(t->floatProfileDepths, t->floatProfileDepths + o.nd);
    if (!!t->doubleProfileDepths != o.dbl || !!t->floatProfileDepths == o.dbl || (t->floatProfileValues && t->doubleProfileValues)) o.nd = -1;
    if (t->times) { o.haveT = true; int g = t->timeGranularitySeconds ? t->timeGranularitySeconds : 60; for (int i = 0; i < n; i++) o.t.push_back((i64)t->times[i] * g + (i64)t->julianBaseDate * cal::DAY); }
    if (t->quality && t->qualityElementSize == 1) { o.haveQ = true; o.q.assign(t->quality, t->quality + n); }
  }
  o.ud = t->unitsProfileDepths ? t->unitsProfileDepths : ""; o.uv = t->unitsProfileValues ? t->unitsProfileValues : ""; o.type = t->type ? t->type : ""; o.tz = t->timeZoneName ? t->timeZoneName : ""; o.precision = t->precision; o.dataType = t->dataType; o.sizeEach = t->sizeEachValueRead;
  o.start = (i64)t->startJulianDate * cal::DAY + t->startTimeSeconds; o.end = (i64)t->endJulianDate * cal::DAY + t->endTimeSeconds; zstructFree(t); return o;
}
VD rowOf(const Prof &p, i64 k) { auto it = p.m.find(k); return it == p.m.end() ? VD(p.nd, MISS()) : it->second; }
void check(Case &c, Dss &d, Prof &p, bool window, i64 ka, i64 kb, int flag, int dbl, int notes) {
  i64 a = p.irr ? ka : p.rt.at(ka), b = p.irr ? kb : p.rt.at(kb); S what = fmt("%s %s..%s flag %d doubles %d notes %d", p.path.c_str(), window ? cal::str(a).c_str() : "all", window ? cal::str(b).c_str() : "", flag, dbl, notes); c.note("get %s", what.c_str());
  POut o = pGet(d, p, window, a, b, flag, dbl, notes, p.irr ? p.gran : p.iv < 60 ? 1 : 0);
  std::vector<i64> keys; // expected
  if (p.irr) { for (auto &x : p.m) if (!window || (x.first >= a && x.first <= b)) keys.push_back(x.first); if (window && flag && !o.t.empty()) { /* a neighbour may be left out (see C04) */ auto it = p.m.lower_bound(a); if ((flag & 1) && it != p.m.begin() && o.t[0] == std::prev(it)->first) keys.insert(keys.begin(), std::prev(it)->first); it = p.m.upper_bound(b); if (flag >= 2 && it != p.m.end() && o.t.back() == it->first) keys.push_back(it->first); } }
  else if (window) { for (i64 k = ka; k <= kb; k++) keys.push_back(k); bool anyv = false; for (i64 k : keys) anyv |= !missRow(rowOf(p, k)); if (flag == -1 && anyv) { while (missRow(rowOf(p, keys.back()))) keys.pop_back(); while (missRow(rowOf(p, keys[0]))) keys.erase(keys.begin()); } if (!anyv) { c.label("nothing in the window"); if (o.status == 0 && o.nd > 0) for (auto &r : o.rows) if (!missRow(r)) c.fail("%s: a value where none is stored", what.c_str()); return; } }
  else { if (p.m.empty()) return; if (o.status) c.fail("%s: status %d", what.c_str(), o.status); if (o.nd != p.nd) c.fail("%s: %d depths, not %d", what.c_str(), o.nd, p.nd); // whole blocks: locate by start
    i64 k0 = p.rt.slot(o.start); if (p.rt.at(k0) != o.start) c.fail("%s: starts at %s, not a time of the series", what.c_str(), cal::str(o.start).c_str()); for (i64 k = k0; k < k0 + o.nv; k++) keys.push_back(k); for (auto &x : p.m) if (!missRow(x.second) && (x.first < k0 || x.first >= k0 + o.nv)) c.fail("%s: the value at %s is left out (%d times from %s)", what.c_str(), cal::str(p.rt.at(x.first)).c_str(), o.nv, cal::str(o.start).c_str()); }
  if (keys.empty()) { if (o.status == 0 && o.nv > 0) c.fail("%s: %d values where none are stored", what.c_str(), o.nv); c.label("nothing in the window"); return; }
  if (o.status) c.fail("%s: status %d, %zu times expected", what.c_str(), o.status, keys.size());
  if (o.nv != (int)keys.size()) c.fail("%s: %d times, not %zu", what.c_str(), o.nv, keys.size());
  if (o.nd != p.nd) c.fail("%s: %d depths (-1: depths and values of different kinds), not %d", what.c_str(), o.nd, p.nd);
  bool wantD = dbl ? dbl == 2 : p.dbl; if (o.dbl != wantD) c.fail("%s: %s returned", what.c_str(), o.dbl ? "doubles" : "floats");
  if ((int)o.depths.size() != p.nd || (int)o.rows.size() != o.nv) c.fail("%s: depths or values missing", what.c_str());
  for (int j = 0; j < p.nd; j++) { double w = wantD ? p.depths[j] : (double)(float)p.depths[j]; if (o.depths[j] != w) c.fail("%s: depth %d is %.10g, not %.10g", what.c_str(), j, o.depths[j], w); }
  for (int i = 0; i < o.nv; i++) { VD w = rowOf(p, keys[i]); for (int j = 0; j < p.nd; j++) { double x = wantD ? w[j] : (double)(float)w[j]; double g = o.rows[i][j]; if (isMiss(x) ? !isMiss(g) : x != g) c.fail("%s: at %s (%d of %d), depth %d of %d: %.10g, not %.10g", what.c_str(), cal::str(p.irr ? keys[i] : p.rt.at(keys[i])).c_str(), i, o.nv, j, p.nd, g, x); } }
  if (p.irr && !o.haveT) c.fail("%s: no times", what.c_str());
  if (o.haveT) for (int i = 0; i < o.nv; i++) { i64 w = p.irr ? keys[i] : p.rt.at(keys[i]); if (o.t[i] != w && !(!p.irr && p.iv >= 60 && o.t[i] == cal::fdiv(w, 60) * 60)) c.fail("%s: time %d is %s, not %s", what.c_str(), i, cal::str(o.t[i]).c_str(), cal::str(w).c_str()); }
  else if (!p.irr && flag == 0) c.fail("%s: no times", what.c_str());
  if (!p.irr) { if (o.start != p.rt.at(keys[0])) c.fail("%s: starts at %s, not %s", what.c_str(), cal::str(o.start).c_str(), cal::str(p.rt.at(keys[0])).c_str()); if (o.end != p.rt.at(keys.back())) c.fail("%s: ends at %s, not %s", what.c_str(), cal::str(o.end).c_str(), cal::str(p.rt.at(keys.back())).c_str()); }
  if (o.ud != p.ud || o.uv != p.uv || o.type != p.type) c.fail("%s: units '%s' '%s' type '%s', not '%s' '%s' '%s'", what.c_str(), o.ud.c_str(), o.uv.c_str(), o.type.c_str(), p.ud.c_str(), p.uv.c_str(), p.type.c_str());
  if (o.tz != p.tz) c.fail("%s: time zone '%s', not '%s'", what.c_str(), o.tz.c_str(), p.tz.c_str());
  if (o.precision != p.precision) c.fail("%s: precision %d, not %d", what.c_str(), o.precision, p.precision);
  if (notes && p.haveQ) { if (!o.haveQ) { for (i64 k : keys) if (p.q.count(k) && p.q[k]) c.fail("%s: the quality is not returned", what.c_str()); } else for (int i = 0; i < o.nv; i++) { int w = p.q.count(keys[i]) ? p.q[keys[i]] : 0; if (o.q[i] != w) c.fail("%s: quality %d of %s is %d, not %d", what.c_str(), i, cal::str(p.irr ? keys[i] : p.rt.at(keys[i])).c_str(), o.q[i], w); } }
}
void profiles(Case &c) {
  auto &g = c.s; int hash, bin; genConfig(c, hash, bin); Dss d; if (d.openFile(c.path("t.dss"), 0, hash, bin)) c.fail("cannot create a file"); int ns = (int)g.range(1, 2); std::vector<Prof> ps;
  for (int i = 0; i < ns; i++) {
    Prof p; p.irr = g.chance(45); p.dbl = g.chance(50); p.nd = (int)(g.chance(15) ? g.range(13, 60) : g.range(1, 12)); p.ud = g.pick({S("ft"), S("meters"), S("x")}); p.uv = g.pick({S("DEG F"), S("C"), S("mg per litre of water")}); p.type = g.pick({S("INST-VAL"), S("PER-AVER")}); if (g.chance(30)) p.tz = g.pick({S("UTC"), S("America/Los_Angeles")}); if (g.chance(40)) p.precision = (int)g.range(0, 4);
    for (int j = 0; j < p.nd; j++) p.depths.push_back(p.dbl ? j * 3.3 - 1 : (double)(float)(j * 2.5)); p.haveQ = g.chance(30);
    if (p.irr) { p.e = g.pick({S("IR-Day"), S("IR-Month"), S("IR-Year"), S("IR-Decade")}); p.iv = p.e == "IR-Day" ? 600 : p.e == "IR-Month" ? 43200 : p.e == "IR-Year" ? 5 * 86400 : 40 * 86400; }
    else { auto &v = intervals(); auto &x = v[g.draw(g.chance(60) ? 4 : v.size())]; p.e = x.name; p.iv = x.sec; if (p.iv == cal::WEEK) { p.e = "1Day"; p.iv = 86400; } /* weekly: see C03 */ p.rt = g.chance(30) ? genRegTime(c, p.iv) : RegTime(); p.rt.iv = p.iv; }
    int y = (int)g.range(1960, 2020); i64 t0 = cal::days(y, (int)g.range(1, 12), (int)g.range(1, 28)) * cal::DAY; p.lo = p.irr ? t0 : p.rt.slot(t0); p.path = fmt("/C25/S%d/Temp-Depth//%s/F%d/", i, p.e.c_str(), i); ps.push_back(p);
  }
  int ops = (int)g.range(2, 9); int done = 0; bool merged = false;
  for (int k = 0; k < ops; k++) {
    Prof &p = ps[g.draw(ps.size())];
    if (!p.exists || g.chance(45)) {
      PIn a; int n = (int)g.range(1, g.chance(20) ? 400 : 40); int run = g.chance(30) ? 4 : 1; VD last;
      if (p.irr) { i64 t = p.lo + g.range(0, 60) * (p.iv / 2); int step = g.pick({p.iv / 2, p.iv, p.iv * 2}); for (int i = 0; i < n; i++) { a.keys.push_back(t); t += (1 + g.draw(3)) * step; } a.flag = g.pick({0, 0, 1}); }
      else { i64 s0 = p.lo + g.range(0, g.chance(30) ? 900 : 60); for (int i = 0; i < n; i++) a.keys.push_back(s0 + i); a.flag = g.pick({0, 0, 2}); }
      int missPct = g.pick({0, 0, 20, 60}); bool any = false;
      for (int i = 0; i < n; i++) { VD r; if (i % run && !last.empty()) r = last; else if (missPct && (int)g.draw(100) < missPct) r.assign(p.nd, MISS()); else for (int j = 0; j < p.nd; j++) r.push_back(j > 14 ? (double)(j + i) : val(c, p.dbl)); any |= !missRow(r); a.rows.push_back(r); last = r; }
      if (!any) a.rows[0].assign(p.nd, 4.0);
      if (p.haveQ) for (int i = 0; i < n; i++) a.q.push_back((int)g.range(0, 6));
      c.note("store %s %d x %d %s from %s flag %d", p.path.c_str(), n, p.nd, p.dbl ? "doubles" : "floats", cal::str(p.irr ? a.keys[0] : p.rt.at(a.keys[0])).c_str(), a.flag);
      merged |= p.exists; a.clone = c.s.chance(20); int st = pStore(d, p, a); if (st) c.fail("storing %d profiles of %d depths to %s gives %d", n, p.nd, p.path.c_str(), st); p.exists = true; done++;
      if (p.irr && a.flag == 1) { p.m.erase(p.m.lower_bound(a.keys[0]), p.m.upper_bound(a.keys.back())); p.q.erase(p.q.lower_bound(a.keys[0]), p.q.upper_bound(a.keys.back())); }
      for (int i = 0; i < n; i++) { p.m[a.keys[i]] = a.rows[i]; if (p.haveQ) p.q[a.keys[i]] = a.q[i]; }
    } else if (g.chance(12)) { if (d.close()) c.fail("close"); if (d.openFile(c.path("t.dss"), g.pick({0, 2}), hash, bin)) c.fail("reopen"); }
    else {
      int dbl = (int)g.draw(3), notes = (int)g.draw(2); if (g.chance(25)) { check(c, d, p, false, p.m.begin()->first, p.m.rbegin()->first, 0, dbl, notes); continue; }
      i64 lo = p.m.begin()->first, hi = p.m.rbegin()->first; if (p.irr) { i64 span = hi - lo; i64 a = lo + g.range(-3, 20) * (span / 16 + 60) / 60 * 60, b = a + g.range(0, 20) * (span / 16 + 60) / 60 * 60; check(c, d, p, true, a, b, (int)g.draw(4), dbl, notes); }
      else { i64 span = std::min<i64>(hi - lo, 2000); i64 a = lo + g.range(-5, (int)span + 3), b = a + g.range(0, (int)span + 8); check(c, d, p, true, a, b, g.pick({0, 0, -1, -2}), dbl, notes); }
    }
  }
  for (auto &p : ps) if (p.exists) { check(c, d, p, true, p.m.begin()->first, p.m.rbegin()->first, 0, (int)g.draw(3), 1); if (p.nd > 1) c.nontrivial(); c.label(p.irr ? "irregular profile" : "regular profile"); }
  if (merged) c.label("merged profile"); if (int b = zcheckFile(d.ifltab)) c.fail("zcheckFile gives %d", b); c.evals(done); d.close();
}
struct Pat { bool irr, dbl; S path, units, type, tz; int iv, precision = -1; i64 off = 0; int gran = 60; VD v; std::vector<int> t; bool exists = false; };
void patterns(Case &c) {
  auto &g = c.s; int hash, bin; genConfig(c, hash, bin); Dss d; if (d.openFile(c.path("t.dss"), 0, hash, bin)) c.fail("cannot create a file"); int ns = (int)g.range(1, 3), ops = (int)g.range(2, 10), done = 0; std::vector<Pat> ps(ns);
  for (int i = 0; i < ns; i++) { Pat &p = ps[i]; p.irr = g.chance(45); S e; if (p.irr) { e = g.pick({S("IR-Day"), S("IR-Month"), S("IR-Year"), S("IR-Decade"), S("IR-Century")}); p.iv = 0; } else { auto &v = intervals(); auto &x = v[g.draw(v.size())]; e = x.name; p.iv = x.sec; } p.path = fmt("/C25/P%d/Flow-UH/%s/%s/F/", i, g.pick({S("TS-Pattern"), S("TS-PATTERN")}).c_str(), e.c_str()); }
  for (int k = 0; k < ops; k++) {
    Pat &p = ps[g.draw(ns)];
    if (!p.exists || g.chance(45)) {
      if (!p.exists) p.dbl = g.chance(50); int n = (int)(g.chance(10) ? g.range(200, 3000) : g.range(1, 60)); p.v.clear(); p.t.clear(); uint32_t h = (uint32_t)g.draw(1u << 20); for (int i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; double x = h % 17 == 0 ? MISS() : h % 5 == 0 ? 0.0 : p.dbl ? (double)(h >> 8) / 7 : (double)(h >> 20) / 8; p.v.push_back(x); }
      int t = (int)g.range(-50, 2000); p.gran = p.irr ? g.pick({60, 60, 1, 3600}) : 0; for (int i = 0; i < n; i++) { p.t.push_back(t); t += (int)(h >> (i % 20)) % 40 + 1; }
      p.units = g.pick({S("CFS"), S("deg F"), S("m3/s per unit of something long")}); p.type = g.pick({S("INST-VAL"), S("PER-AVER"), S("PER-CUM")}); p.tz = g.chance(20) ? "PST" : ""; p.precision = g.chance(50) ? (int)g.range(0, 5) : -1; p.off = 0; if (!p.irr && p.iv > 120 && p.iv <= 86400 && g.chance(30)) p.off = g.range(1, p.iv / 60 - 1) * 60;
      zStructTimeSeries *z = zstructTsNew(p.path.c_str()); std::vector<float> f(p.v.begin(), p.v.end()); VD dv = p.v; std::vector<int> tm = p.t; S u = p.units, ty = p.type, tz = p.tz; if (p.dbl) z->doubleValues = dv.data(); else z->floatValues = f.data(); z->numberValues = n; z->units = &u[0]; z->type = &ty[0]; if (!tz.empty()) z->timeZoneName = &tz[0]; z->precision = p.precision; z->timeOffsetSeconds = (int)p.off; if (p.irr) { z->times = tm.data(); z->timeGranularitySeconds = p.gran; }
      c.note("store pattern %s %d %s gran %d off %lld", p.path.c_str(), n, p.dbl ? "doubles" : "floats", p.gran, (long long)p.off); int st = ztsStore(d.ifltab, z, 0); z->doubleValues = 0; z->floatValues = 0; z->units = z->type = z->timeZoneName = 0; z->times = 0; zstructFree(z); if (st) c.fail("storing pattern %s gives %d", p.path.c_str(), st); p.exists = true; done++; if (n > 1) c.nontrivial(); c.label(p.irr ? "irregular pattern" : "regular pattern");
      continue;
    }
    if (g.chance(10)) { if (d.close()) c.fail("close"); if (d.openFile(c.path("t.dss"), g.pick({0, 2}), hash, bin)) c.fail("reopen"); continue; }
    int dbl = (int)g.draw(3); S q = recase(c, p.path); c.note("get pattern %s doubles %d", q.c_str(), dbl); zStructTimeSeries *z = zstructTsNew(q.c_str()); int st = ztsRetrieve(d.ifltab, z, g.pick({0, -1, -2}), dbl, (int)g.draw(2)); S what = fmt("pattern %s (read as %d)", p.path.c_str(), dbl); if (st) c.fail("%s: status %d", what.c_str(), st);
    int n = z->numberValues; if (n != (int)p.v.size()) c.fail("%s: %d values, not %zu", what.c_str(), n, p.v.size()); bool wantD = dbl ? dbl == 2 : p.dbl; if (!!z->doubleValues != wantD || !!z->floatValues == wantD) c.fail("%s: wrong kind of values", what.c_str());
    for (int i = 0; i < n; i++) { double x = wantD ? p.v[i] : (double)(float)p.v[i], y = wantD ? z->doubleValues[i] : z->floatValues[i]; if (x != y) c.fail("%s: value %d of %d is %.10g, not %.10g", what.c_str(), i, n, y, x); }
    if (p.irr) { if (!z->times) c.fail("%s: no times", what.c_str()); for (int i = 0; i < n; i++) if (z->times[i] != p.t[i]) c.fail("%s: time %d is %d, not %d", what.c_str(), i, z->times[i], p.t[i]); if (z->timeGranularitySeconds != p.gran) c.fail("%s: granularity %d, not %d", what.c_str(), z->timeGranularitySeconds, p.gran); }
    else { RegTime r; r.iv = p.iv; r.off = p.off; i64 base = cal::days(3000, 1, 1) * cal::DAY, k0 = cal::slotOf(p.iv, base); i64 s = (i64)z->startJulianDate * cal::DAY + z->startTimeSeconds, e = (i64)z->endJulianDate * cal::DAY + z->endTimeSeconds; if (z->timeIntervalSeconds != p.iv) c.fail("%s: interval %d, not %d", what.c_str(), z->timeIntervalSeconds, p.iv); if (z->timeOffsetSeconds != p.off) c.fail("%s: offset %d, not %lld", what.c_str(), z->timeOffsetSeconds, (long long)p.off);
      if (p.iv <= cal::WEEK) { if (e - s != (i64)(n - 1) * p.iv) c.fail("%s: %d values from %s end at %s", what.c_str(), n, cal::str(s).c_str(), cal::str(e).c_str()); } else { i64 ks = cal::slotOf(p.iv, s); if (r.at(ks) != s) c.fail("%s: starts at %s, not a time of the interval", what.c_str(), cal::str(s).c_str()); if (e != r.at(ks + n - 1)) c.fail("%s: %d values from %s end at %s, not %s", what.c_str(), n, cal::str(s).c_str(), cal::str(e).c_str(), cal::str(r.at(ks + n - 1)).c_str()); } (void)k0; }
    if (S(z->units ? z->units : "") != p.units || S(z->type ? z->type : "") != p.type || S(z->timeZoneName ? z->timeZoneName : "") != p.tz || z->precision != p.precision) c.fail("%s: units '%s' type '%s' time zone '%s' precision %d", what.c_str(), z->units ? z->units : "", z->type ? z->type : "", z->timeZoneName ? z->timeZoneName : "", z->precision);
    zstructFree(z);
  }
  if (int b = zcheckFile(d.ifltab)) c.fail("zcheckFile gives %d", b); c.evals(done); d.close();
}
void c25(Case &c) { if (c.s.chance(65)) profiles(c); else patterns(c); }
eng::Reg r({"C25", "a profile of more than one depth, or a pattern of more than one value, was stored", c25, 8000, 150000, "exploration", {"a series keeps its depths and its precision kind (float or double) over its life", "no aliased value -901/-902"}});
}
