// Irregular series against an ordered map of instants.
#include "ts.hpp"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
namespace {
struct IrrBlock { const char *name; int size; i64 gap; };
const std::vector<IrrBlock> &blocks() { static const std::vector<IrrBlock> v = {{"IR-Month", 2, 40000}, {"IR-Year", 3, 400000}, {"IR-Day", 1, 2000}, {"IR-Decade", 4, 4000000}, {"IR-Century", 5, 60000000}, {"~1Hour", 2, 40000}, {"~15Minute", 1, 2000}, {"~1Day", 3, 400000}, {"~1Month", 5, 60000000}, {"~1Week", 4, 4000000}}; return v; }
struct Series { IrrBlock b; std::string path; int gran = 60; int base = 0; bool dbl = false, mixed = false; std::map<i64, double> val; };
i64 quant(i64 t, const Series &s) { i64 g = s.gran ? s.gran : 60; return cal::fdiv(t, g) * g; }
i64 blk(const Series &s, i64 t) { return cal::irrBlockStart(s.b.size, cal::fdiv(t - 1, cal::DAY)); }
void store(Case &c, Dss &d, Series &s) {
  auto &g = c.s; TsIn a; i64 t0; i64 u = s.gran ? s.gran : 60;
  if (s.val.empty()) { i64 y = g.pick({2000, 1999, 1901, 1869, 2099, 1959}) + g.range(0, 3); i64 j = cal::days(y, (int)g.range(1, 12), g.chance(50) ? 1 : (int)g.range(1, 28)); if (g.chance(50)) j = cal::irrBlockStart(s.b.size, j); t0 = j * cal::DAY + g.range(-3, 3) * u;
    s.base = u == 1 ? (int)(j - (g.chance(50) ? 0 : g.range(0, 900))) : (g.chance(20) ? (int)j - (int)g.range(0, 900) : 0); }
  else { auto it = s.val.begin(); std::advance(it, g.draw(s.val.size())); t0 = it->first; int w = (int)g.draw(4); if (w == 1) t0 += g.range(-5, 5) * u; else if (w == 2) t0 += g.range(-s.b.gap, s.b.gap) * 2; else if (w == 3) { i64 j = blk(s, t0); if (g.chance(50)) j = cal::nextBlock(s.b.size, j); t0 = j * cal::DAY + g.range(-3, 3) * u; } }
  t0 = quant(t0, s);
  int n = 1 + (int)(g.chance(8) ? g.size(c.tier ? 5000 : 1500) : g.size(25));
  a.v = genValues(c, n, a.dbl = s.mixed ? g.chance(50) : s.dbl);
  int gm = (int)g.draw(5); i64 t = t0;
  const i64 cap = cal::days(2300, 1, 1) * cal::DAY;
  for (int i = 0; i < n; i++) {
    if (i && t > cap) { n = i; a.v.resize(n); break; }
    a.times.push_back(t); i64 st;
    if (gm == 0) st = u; else if (gm == 1) st = u * g.range(1, 5); else if (gm == 2) st = 1 + g.size(s.b.gap); else if (gm == 3) st = g.chance(10) ? s.b.gap * 20 : u; // now and then a whole block is jumped over
    else { auto it = s.val.upper_bound(t); st = it != s.val.end() && g.chance(60) ? it->first - t : 1 + g.size(s.b.gap); } // interleave with what is there
    t = quant(t + st + u - 1, s); if (t <= a.times.back()) t = a.times.back() + u;
  }
  if (u == 1 && (a.times.back() - (i64)s.base * cal::DAY > 2000000000 || a.times[0] - (i64)s.base * cal::DAY < -2000000000)) return;
  if (u == 1) { i64 mn = a.times[0], mx = a.times.back(); if (!s.val.empty()) { mn = std::min(mn, s.val.begin()->first); mx = std::max(mx, s.val.rbegin()->first); } if (mx - blk(s, mn) * cal::DAY > 2100000000) return; } // second times are 32 bits from the first block
  if ((a.times[0] == 0 || a.times.back() == 0) && c.isKnown("value-at-julian-0")) return;
  a.flag = g.chance(30) ? 1 : 0; a.gran = s.gran; a.base = s.base;
  c.note("store %d values %s .. %s %s %s", n, cal::str(a.times[0]).c_str(), cal::str(a.times.back()).c_str(), a.flag ? "replace" : "merge", a.dbl ? "double" : "float");
  int st = tsStore(d, s.path, a); if (st) c.fail("store returned %d", st);
  if (a.flag == 1) s.val.erase(s.val.lower_bound(a.times[0]), s.val.upper_bound(a.times.back()));
  for (int i = 0; i < n; i++) s.val[a.times[i]] = a.v[i];
}
std::string dpath(Series &s, const std::string &d) { size_t p = s.path.find("//", 1) + 1; return s.path.substr(0, p) + d + s.path.substr(p); }
void retrieve(Case &c, Dss &d, Series &s, bool full) {
  auto &g = c.s; if (s.val.empty()) return; TsQ q; q.window = true; i64 u = s.gran ? s.gran : 60;
  i64 a = s.val.begin()->first, b = s.val.rbegin()->first, lo, hi; int mode = full ? 0 : (int)g.draw(6);
  auto some = [&] { auto it = s.val.begin(); std::advance(it, g.draw(s.val.size())); return it->first; };
  if (mode == 0) { lo = a; hi = b; } else if (mode == 1) { lo = a - g.range(0, s.b.gap); hi = b + g.range(0, s.b.gap); }
  else { lo = some(); hi = mode == 2 ? lo : mode == 3 ? lo + g.size(s.b.gap) : some(); if (hi < lo) std::swap(lo, hi); if (mode >= 4) { lo += g.range(-2, 2) * (g.chance(50) ? u : 1); hi += g.range(-2, 2) * (g.chance(50) ? u : 1); } if (mode == 3 && g.chance(40)) lo += 1; if (hi < lo) hi = lo; }
  // the window given by the pathname: 1 a block, 2 blocks A - B, 3 days a - b, 4 everything
  int dpart = !full && g.chance(25) ? 1 + (int)g.draw(4) : 0; std::string path = s.path;
  if (dpart) {
    q.window = false; i64 d0 = cal::fdiv(lo - 1, cal::DAY), d1 = cal::fdiv(hi - 1, cal::DAY);
    if (dpart < 3) { d0 = cal::irrBlockStart(s.b.size, d0); d1 = cal::irrBlockStart(s.b.size, d1); path = dpath(s, dpart == 1 ? up(cal::dpart(d0)) : up(cal::dpart(d0)) + " - " + up(cal::dpart(d1))); d1 = cal::nextBlock(s.b.size, dpart == 1 ? d0 : d1) - 1; }
    else if (dpart == 3) path = dpath(s, cal::dpart(d0) + " - " + cal::dpart(d1));
    else { d0 = cal::fdiv(a - 1, cal::DAY); d1 = cal::fdiv(b - 1, cal::DAY); if (g.chance(50)) { q.all = true; if (g.chance(60)) path = dpath(s, up(cal::dpart(cal::irrBlockStart(s.b.size, cal::fdiv(lo - 1, cal::DAY))))); } }
    lo = d0 * cal::DAY + 1; hi = (d1 + 1) * cal::DAY; c.label(dpart == 1 ? "block by pathname" : dpart < 4 ? "range by pathname" : "whole data set");
    if (dpart == 4) { q.flag = 0; bool near0 = false; for (auto &[t, v] : s.val) if (t > -cal::DAY && t <= cal::DAY) near0 = true; if (near0 && c.isKnown("value-at-julian-0")) return; }
  }
  q.start = lo; q.end = hi; q.flag = full || dpart == 4 ? 0 : g.pick({0, 0, 1, 2, 3}); q.dbl = g.pick({0, 1, 2}); q.notes = g.chance(20);
  { int js, je, x; splitT(lo, js, x); splitT(hi, je, x); if (js == je && (js == 0 || js == -1)) return; }
  c.note("retrieve %s .. %s flag %d dbl %d%s%s", cal::str(lo).c_str(), cal::str(hi).c_str(), q.flag, q.dbl, dpart ? " by pathname " : "", dpart ? path.c_str() : "");
  auto f = s.val.lower_bound(lo), l = s.val.upper_bound(hi);
  std::string key;
  if (q.flag & 1 && f != s.val.begin()) { auto p = std::prev(f); i64 e = blk(s, lo), pb = blk(s, p->first); bool edge = f != s.val.end() && blk(s, f->first) == e; if (pb != e && !(edge && pb == blk(s, e * cal::DAY)) && c.isKnown("neighbour-not-in-adjacent-block")) return; f = p; c.label("previous"); }
  if (q.flag & 2 && l != s.val.end()) { i64 e = blk(s, hi), nb = blk(s, l->first); bool edge = l != s.val.begin() && blk(s, std::prev(l)->first) == e; if (nb != e && !(edge && nb == cal::nextBlock(s.b.size, e)) && c.isKnown("neighbour-not-in-adjacent-block")) return; ++l; c.label("next"); }
  TsOut o = tsGet(d, path, q);
  if (dpart == 4) { while (f != l && isMiss(f->second)) ++f; while (f != l && isMiss(std::prev(l)->second)) --l; if (f == l) return; // missing values at the ends of the set may be left out
    size_t k = 0; while (k < o.t.size() && o.t[k] < f->first && s.val.count(o.t[k]) && isMiss(o.v[k])) k++; o.t.erase(o.t.begin(), o.t.begin() + k); o.v.erase(o.v.begin(), o.v.begin() + k); o.nv -= (int)k;
    while (!o.t.empty() && (int)o.t.size() == o.nv && o.t.back() > std::prev(l)->first && s.val.count(o.t.back()) && isMiss(o.v.back())) { o.t.pop_back(); o.v.pop_back(); o.nv--; } }
  std::vector<std::pair<i64, double>> want(f, l);
  if (o.status != 0 && !want.empty()) c.fail("retrieve returned %d, %zu values expected", o.status, want.size());
  if (o.status < -1) c.fail("retrieve of an empty window returned %d", o.status);
  int nv = o.status == 0 ? o.nv : 0;
  std::string got; for (int i = 0; i < nv && i < 6; i++) got += fmt(" %s=%g", cal::str(o.t[i]).c_str(), o.v[i]);
  std::string exp; for (size_t i = 0; i < want.size() && i < 6; i++) exp += fmt(" %s=%g", cal::str(want[i].first).c_str(), want[i].second);
  if (nv != (int)want.size()) c.fail("%d values returned, expected %zu; got%s; expected%s", nv, want.size(), got.c_str(), exp.c_str());
  if (nv && q.dbl == 1 && o.dbl) c.fail("doubles returned, floats asked for"); if (nv && q.dbl == 2 && !o.dbl) c.fail("floats returned, doubles asked for");
  for (int i = 0; i < nv; i++) {
    if (o.t[i] != want[i].first) c.fail("time %d is %s, expected %s (gran %d base %d)", i, cal::str(o.t[i]).c_str(), cal::str(want[i].first).c_str(), o.gran, o.base);
    double w = want[i].second, x = o.v[i]; if (isMiss(w)) { if (!isMiss(x)) c.fail("value at %s is %g, expected missing", cal::str(o.t[i]).c_str(), x); continue; }
    if (!o.dbl) w = (double)(float)w; if (x != w) c.fail("value at %s is %.17g, expected %.17g", cal::str(o.t[i]).c_str(), x, w);
  }
}
void run(Case &c) {
  quiet(); auto &g = c.s; Dss d; std::string file = c.path("t.dss"); int st = d.openFile(file); if (st) c.fail("open %d", st);
  int nser = g.chance(85) ? 1 : 2; std::vector<Series> ss(nser);
  for (int i = 0; i < nser; i++) { auto &s = ss[i]; s.b = g.pick(blocks()); s.path = fmt("/A/B%d/FLOW//%s/F/", i, s.b.name); s.gran = g.pick({60, 0, 1, 60, 1}); if (s.b.size == 5 && s.gran == 1) s.gran = 60; if (g.chance(6)) s.gran = s.b.size == 1 || g.chance(50) ? 3600 : 86400; s.dbl = g.chance(50); s.mixed = g.chance(15); c.note("series %d %s granularity %d%s", i, s.b.name, s.gran, s.mixed ? " mixed" : ""); }
  int nst = 0, nops = (int)g.range(2, c.tier ? 24 : 12);
  for (int k = 0; k < nops; k++) {
    Series &s = ss[g.draw(nser)];
    if (s.val.empty() || g.chance(50)) { store(c, d, s); nst++; } else if (g.chance(10)) { d.close(); st = d.openFile(file); if (st) c.fail("reopen %d", st); } else retrieve(c, d, s, false);
  }
  for (auto &s : ss) { c.note("final"); retrieve(c, d, s, true); c.label("%s", s.b.name); if (s.gran == 1) c.label("seconds"); if (s.mixed) c.label("mixed precision"); }
  d.close();
  for (auto &s : ss) if (!s.val.empty() && blk(s, s.val.begin()->first) != blk(s, s.val.rbegin()->first)) { c.label("multi-block"); if (nst >= 2) c.nontrivial(); }
}
}
static eng::Reg r({"C04", "random histories of merge and replace stores (all block sizes, second to day granularity, interleaved, adjacent and block-edge times, float/double) and window retrievals with previous/next options of irregular series; non-trivial: at least two stores and data in more than one record block", run, 12000, 150000, "exploration", {"one time granularity per series", "no duplicate times within one store", "years 1869-2300"}});
