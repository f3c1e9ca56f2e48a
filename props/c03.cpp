#include "ts.hpp"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
namespace {
struct Series {
  RegTime rt; std::string name, path; std::map<i64, double> val; bool mixed = false, everDouble = false; bool fenced = false, fSet = false; i64 fLo = 0, fHi = 0; // weekly: keep to the second and later periods of one decade (listed finding)
  void clamp(i64 &lo, i64 &hi) const { if (!fenced) return; lo = std::min(std::max(lo, fLo), fHi); hi = std::min(std::max(hi, lo), fHi); }
  void fence(i64 k) { if (!fenced || fSet) return; fSet = true; i64 j = cal::blockStart(rt.iv, (cal::eop(rt.iv, k) - 1) / cal::DAY); fLo = rt.slot(j * cal::DAY + 1) + 1; fHi = rt.slot(cal::nextBlock(4, j) * cal::DAY + 1) - 1; }
};
std::string dstr(i64 j, bool caps) { return caps ? up(cal::dpart(j)) : cal::dpart(j); }
std::string dpath(Series &s, const std::string &d) { return s.path.substr(0, s.path.find("//", 1) + 1) + d + s.path.substr(s.path.find("//", 1) + 1); }
// the window start may fall anywhere in a period; the period that holds it is returned
void retrieve(Case &c, Dss &d, Series &s) {
  auto &g = c.s; TsQ q; q.window = true;
  i64 lo, hi;
  if (s.val.empty()) return;
  i64 a = s.val.begin()->first, b = s.val.rbegin()->first;
  int dpart = g.chance(25) ? 1 + (int)g.draw(4) : 0; std::string path = s.path; // the window given by the pathname: 1 a block, 2 blocks A - B, 3 days a - b, 4 everything
  int mode = (int)g.draw(5);
  if (mode == 0) { lo = a; hi = b; } else if (mode == 1) { lo = a - g.range(0, 20); hi = b + g.range(0, 20); }
  else { // anchored at some stored slot
    auto it = s.val.begin(); std::advance(it, g.draw(s.val.size())); lo = it->first - g.size(40); hi = lo + g.size(mode == 4 ? (s.rt.iv == cal::YEAR ? 250 : 4000) : 100); }
  s.clamp(lo, hi);
  q.start = s.rt.at(lo); q.end = s.rt.at(hi);
  if (dpart == 4) { q.window = false; q.start = s.rt.at(a); q.end = s.rt.at(b); lo = a; hi = b; if (g.chance(50)) { q.all = true; if (g.chance(60)) path = dpath(s, dstr(cal::blockStart(s.rt.iv, cal::fdiv(cal::eop(s.rt.iv, lo + g.range(0, 3)) - 1, cal::DAY)), true)); } }
  else if (dpart) {
    q.window = false; i64 d0 = cal::fdiv(cal::eop(s.rt.iv, lo) - 1, cal::DAY), d1 = cal::fdiv(cal::eop(s.rt.iv, hi) - 1, cal::DAY); int bk = cal::blockKind(s.rt.iv);
    if (dpart < 3) { d0 = cal::blockStart(s.rt.iv, d0); d1 = cal::blockStart(s.rt.iv, d1); path = dpath(s, dpart == 1 ? dstr(d0, true) : dstr(d0, true) + " - " + dstr(d1, true)); d1 = cal::nextBlock(bk, dpart == 1 ? d0 : d1) - 1; }
    else path = dpath(s, dstr(d0, false) + " - " + dstr(d1, false));
    lo = s.rt.slot(d0 * cal::DAY + std::min<i64>(s.rt.iv <= cal::WEEK ? s.rt.iv : cal::DAY, cal::DAY)); hi = s.rt.slot((d1 + 1) * cal::DAY); q.start = s.rt.at(lo); q.end = s.rt.at(hi);
    if (s.fenced && (lo < s.fLo || hi > s.fHi)) return;
  }
  bool exact = dpart || !g.chance(15);
  if (!exact) { i64 e0 = cal::eop(s.rt.iv, lo - 1), e1 = cal::eop(s.rt.iv, hi - 1), p0 = cal::eop(s.rt.iv, lo) - e0, p1 = cal::eop(s.rt.iv, hi) - e1; q.start = e0 + 1 + (i64)g.draw(p0); q.end = e1 + 1 + (i64)g.draw(p1); if (q.end < q.start) q.end = q.start;
    if (s.rt.iv > cal::WEEK) { q.start = s.rt.at(lo); q.end = s.rt.at(hi); exact = true; } }
  { auto edge = [&](i64 k) { return s.rt.off && cal::eop(s.rt.iv, k - 1) == 0; }; i64 f = lo, l = hi; auto m = [&](i64 k) { auto it = s.val.find(k); return it == s.val.end() || isMiss(it->second); }; while (f < l && m(f)) f++; while (l > f && m(l)) l--;
    if (dpart == 4) { i64 w = s.rt.slot(cal::fdiv(s.rt.at(f) - 1, cal::DAY) * cal::DAY + 1); if (edge(w) || (s.rt.off && a != b && edge(s.rt.slot(1)) && s.val.lower_bound(s.rt.slot(1)) != s.val.upper_bound(s.rt.slot(cal::DAY)))) f = s.rt.slot(1); q.start = s.rt.at(f); q.end = s.rt.at(l); } // the window starts with the day of the first value
    if ((edge(lo) || edge(hi) || edge(f) || edge(l)) && c.isKnown("offset-value-of-julian-0")) return; }
  bool byNumber = exact && !dpart && g.chance(15);
  if (byNumber) q.number = (int)(hi - lo + 1);
  q.dbl = g.pick({0, 1, 2}); q.flag = g.pick({0, 0, -2, -1, -3}); q.notes = g.chance(20);
  { int js, je, x; splitT(q.start, js, x); splitT(q.end, je, x); if (js == je && (js == 0 || js == -1) && c.isKnown("window-on-julian-0")) return; }
  c.note("retrieve %s .. %s (%lld slots) flag %d dbl %d%s%s", cal::str(q.start).c_str(), cal::str(q.end).c_str(), hi - lo + 1, q.flag, q.dbl, exact ? "" : " inexact", dpart ? (" by pathname " + path).c_str() : byNumber ? " by number" : "");
  TsOut o = tsGet(d, path, q);
  if (dpart) c.label(dpart == 1 ? "block by pathname" : dpart < 4 ? "range by pathname" : "whole data set");
  if (dpart == 4 && o.status == 0) { lo = s.rt.slot(o.start); hi = lo + o.nv - 1; for (auto &[k, v] : s.val) if (!isMiss(v) && (k < lo || k > hi)) c.fail("the value at %s is not in the whole data set, which runs from %s to %s", cal::str(s.rt.at(k)).c_str(), cal::str(o.start).c_str(), cal::str(o.end).c_str()); }
  i64 f = lo, l = hi; bool any = false, anyVal = false;
  for (auto it = s.val.lower_bound(lo); it != s.val.end() && it->first <= hi; ++it) { any = true; if (!isMiss(it->second)) anyVal = true; }
  if (!anyVal) { // the records in the window may or may not exist
    if (o.status < -1 && dpart != 4 && !(q.flag == -1 || q.flag == -3)) c.fail("retrieve of a window without values returned %d", o.status);
    if (o.status == 0) for (double x : o.v) if (!isMiss(x)) c.fail("window without values returned value %g", x);
    return;
  }
  (void)any;
  if (o.status != 0) c.fail("retrieve of existing data returned %d", o.status);
  if (q.flag == -1 || q.flag == -3) {
    auto m = [&](i64 k) { auto it = s.val.find(k); return it == s.val.end() || isMiss(it->second); };
    while (m(f)) f++; while (m(l)) l--;
    c.label("trim");
  }
  if (o.nv != l - f + 1) c.fail("%d values returned, expected %lld (slots %s to %s)", o.nv, l - f + 1, cal::str(s.rt.at(f)).c_str(), cal::str(s.rt.at(l)).c_str());
  if (q.dbl == 1 && o.dbl) c.fail("doubles returned, floats asked for"); if (q.dbl == 2 && !o.dbl) c.fail("floats returned, doubles asked for");
  if ((q.flag == 0 || q.flag == -1) != o.haveTimes) c.fail("time array %s with flag %d", o.haveTimes ? "present" : "absent", q.flag);
  if (o.start != s.rt.at(f)) c.fail("returned start %s, expected %s", cal::str(o.start).c_str(), cal::str(s.rt.at(f)).c_str());
  if (o.end != s.rt.at(l)) c.fail("returned end %s, expected %s", cal::str(o.end).c_str(), cal::str(s.rt.at(l)).c_str());
  if (o.interval != s.rt.iv) c.fail("interval %d returned", o.interval);
  for (i64 k = f; k <= l; k++) {
    auto it = s.val.find(k); double want = it == s.val.end() ? MISS() : it->second, got = o.v[k - f];
    if (o.haveTimes) { i64 wt = s.rt.at(k); if (o.gran > 1 && wt % o.gran) wt = cal::fdiv(wt, o.gran) * o.gran; if (o.t[k - f] != wt) c.fail("time %lld is %s, expected %s (base %d gran %d)", k - f, cal::str(o.t[k - f]).c_str(), cal::str(wt).c_str(), o.base, o.gran); }
    if (isMiss(want)) { if (!isMiss(got)) c.fail("value at %s is %.17g, expected missing", cal::str(s.rt.at(k)).c_str(), got); continue; }
    if (!o.dbl) want = (double)(float)want;
    if (got != want) c.fail("value at %s is %.17g, expected %.17g", cal::str(s.rt.at(k)).c_str(), got, want);
  }
}
void store(Case &c, Dss &d, Series &s) {
  auto &g = c.s; TsIn a; i64 k0;
  if (s.val.empty()) {
    // somewhere from year 1850 to 2150, block edges favoured
    i64 y = g.pick({2000, 1999, 1900, 1869, 2099, 1959}); y += g.range(0, 3); int m = (int)g.range(1, 12); int dd = g.chance(50) ? 1 : (int)g.range(1, 28);
    i64 j = cal::days(y, m, dd); if (g.chance(60)) j = cal::blockStart(s.rt.iv, j); k0 = s.rt.slot(j * cal::DAY + 1) + g.range(-6, 6);
  } else { auto it = s.val.begin(); std::advance(it, g.draw(s.val.size())); k0 = it->first + g.range(-30, 30);
    if (g.chance(20)) { i64 j = cal::blockStart(s.rt.iv, (s.rt.at(k0)) / cal::DAY); k0 = s.rt.slot(j * cal::DAY + 1) + g.range(-4, 4); } }
  i64 n = 1 + (g.chance(12) ? g.size(c.tier ? 20000 : 5000) : g.size(150));
  if (s.rt.iv >= cal::MONTH) n = std::min<i64>(n, s.rt.iv == cal::YEAR ? 260 : 1500);
  s.fence(k0); { i64 h = k0 + n - 1; s.clamp(k0, h); n = h - k0 + 1; }
  a.dbl = s.mixed ? g.chance(50) : s.everDouble; a.v = genValues(c, n, a.dbl); a.flag = g.pick({0, 0, 1, 2, 3, 4});
  if (s.rt.off && (cal::eop(s.rt.iv, k0 - 1) == 0 || cal::eop(s.rt.iv, k0 + n - 2) == 0) && c.isKnown("offset-value-of-julian-0")) return;
  a.start = s.rt.at(k0);
  c.note("store %s n %lld flag %d %s", cal::str(a.start).c_str(), n, a.flag, a.dbl ? "double" : "float");
  int st = tsStore(d, s.path, a); if (st) c.fail("store returned %d", st);
  for (i64 i = 0; i < n; i++) {
    double x = a.v[i]; auto it = s.val.find(k0 + i); bool have = it != s.val.end() && !isMiss(it->second);
    if (a.flag == 1 && have) continue; if (a.flag == 4 && have && isMiss(x)) continue;
    s.val[k0 + i] = x;
  }
}
void run(Case &c) {
  quiet(); auto &g = c.s; Dss d; std::string file = c.path("t.dss"); int st = d.openFile(file); if (st) c.fail("open %d", st);
  int nser = g.chance(80) ? 1 : 2; std::vector<Series> ss(nser);
  for (int i = 0; i < nser; i++) { auto &s = ss[i]; const IvName &iv = g.pick(intervals()); s.rt = genRegTime(c, iv.sec); s.name = iv.name; s.everDouble = g.chance(50); s.mixed = g.chance(15); if (iv.sec == cal::WEEK) s.fenced = c.isKnown("weekly-block-edge"); s.path = fmt("/A/B%d/FLOW//%s/F/", i, iv.name); c.note("series %d %s offset %lld%s", i, iv.name, s.rt.off, s.mixed ? " mixed" : ""); }
  int nst = 0, nops = (int)g.range(2, c.tier ? 24 : 12);
  for (int k = 0; k < nops; k++) {
    Series &s = ss[g.draw(nser)];
    if (s.val.empty() || g.chance(50)) { store(c, d, s); nst++; } else if (g.chance(10)) { d.close(); st = d.openFile(file); if (st) c.fail("reopen %d", st); } else retrieve(c, d, s);
  }
  for (auto &s : ss) { c.note("final"); retrieve(c, d, s); c.label("%s", s.name.c_str()); if (s.rt.off) c.label("offset"); if (s.mixed) c.label("mixed precision"); }
  d.close();
  for (auto &s : ss) { if (s.val.empty()) continue; i64 b0 = cal::blockStart(s.rt.iv, (cal::eop(s.rt.iv, s.val.begin()->first) - 1) / cal::DAY), b1 = cal::blockStart(s.rt.iv, (cal::eop(s.rt.iv, s.val.rbegin()->first) - 1) / cal::DAY); if (b0 != b1) { c.label("multi-block"); if (nst >= 2) c.nontrivial(); } }
}
}
static eng::Reg r({"C03", "random histories of stores (all intervals, offsets, flags 0-4, float/double, missing patterns) and window retrievals of regular series; non-trivial: at least two stores and data in more than one record block", run, 12000, 150000, "exploration", {"a series keeps one offset for its lifetime", "offsets of month-like intervals stay clear of the last days of the period, which the library counts as the end of period", "years 1850-2150"}});
