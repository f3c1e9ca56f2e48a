// Units, quality, notes and header of a series against a model that keeps them per time.
#include "ts.hpp"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
namespace {
struct Cell { double v = 0; std::vector<int> q, in; std::string cn; bool qk = true, ik = true, ck = true; };
struct Meta { std::string units, type, tz; int precision = -1; std::vector<int> uh; bool known = true, uhKnown = true; };
struct IrrB { const char *name; int size; i64 gap; };
const std::vector<IrrB> &irr() { static const std::vector<IrrB> v = {{"IR-Month", 2, 100000}, {"IR-Day", 1, 9000}, {"IR-Year", 3, 900000}, {"IR-Decade", 4, 9000000}, {"IR-Century", 5, 90000000}}; return v; }
struct Series {
  bool reg = true; RegTime rt; IrrB b{}; std::string path; bool dbl = false; bool mixed = false; int noteKind = 0; std::map<i64, Cell> cells; std::map<i64, Meta> meta; Meta proto; bool fenced = false; i64 fLo = 0, fHi = 0;
  void fence(i64 k) { if (!fenced || fHi) return; i64 j = cal::blockStart(rt.iv, (cal::eop(rt.iv, k) - 1) / cal::DAY); fLo = rt.slot(j * cal::DAY + 1) + 1; fHi = rt.slot(cal::nextBlock(4, j) * cal::DAY + 1) - 1; }
  void clamp(i64 &lo, i64 &hi) const { if (!fenced) return; lo = std::min(std::max(lo, fLo), fHi); hi = std::min(std::max(hi, lo), fHi); }
  i64 inst(i64 k) const { return reg ? rt.at(k) : k; }
  i64 blk(i64 k) const { i64 j = cal::fdiv((reg ? cal::eop(rt.iv, k) : k) - 1, cal::DAY); return reg ? cal::blockStart(rt.iv, j) : cal::irrBlockStart(b.size, j); }
};
std::vector<int> trimz(const int *p, int n) { std::vector<int> v(p, p + n); while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
std::string show(const std::vector<int> &v) { std::string s = "["; for (int x : v) s += fmt("%d ", x); return s + "]"; }
void store(Case &c, Dss &d, Series &s) {
  auto &g = c.s; TsIn a; std::vector<i64> key; int n;
  if (s.reg) {
    i64 k0; int iv = s.rt.iv;
    if (s.cells.empty()) { i64 y = g.range(1998, 2003); i64 j = cal::days(y, (int)g.range(1, 12), g.chance(50) ? 1 : (int)g.range(1, 28)); if (g.chance(60)) j = cal::blockStart(iv, j); k0 = s.rt.slot(j * cal::DAY + 1) + g.range(-8, 8); }
    else { auto it = s.cells.begin(); std::advance(it, g.draw(s.cells.size())); k0 = it->first + g.range(-12, 12); if (g.chance(20)) { i64 j = cal::blockStart(iv, (s.rt.at(k0)) / cal::DAY); k0 = s.rt.slot(j * cal::DAY + 1) + g.range(-4, 4); } }
    n = 1 + (int)(g.chance(10) ? g.size(2000) : g.size(40)); if (iv == cal::YEAR) n = std::min(n, 120);
    s.fence(k0); { i64 h = k0 + n - 1; s.clamp(k0, h); n = (int)(h - k0 + 1); }
    for (int i = 0; i < n; i++) key.push_back(k0 + i);
    a.start = s.rt.at(k0); a.flag = g.pick({0, 0, 0, 1, 4, 2});
  } else {
    i64 t0; if (s.cells.empty()) { i64 j = cal::days(g.range(1998, 2003), (int)g.range(1, 12), g.chance(50) ? 1 : (int)g.range(1, 28)); if (g.chance(50)) j = cal::irrBlockStart(s.b.size, j); t0 = j * cal::DAY + g.range(-3, 3) * 60; }
    else { auto it = s.cells.begin(); std::advance(it, g.draw(s.cells.size())); t0 = it->first + (g.chance(50) ? g.range(-5, 5) * 60 : 0); }
    n = 1 + (int)(g.chance(8) ? g.size(600) : g.size(25)); int gm = (int)g.draw(4); i64 t = t0, cap = cal::days(2200, 1, 1) * cal::DAY;
    for (int i = 0; i < n && t < cap; i++) { key.push_back(t); i64 st = gm == 0 ? 60 : gm == 1 ? 60 * g.range(1, 5) : 60 + g.size(s.b.gap); if (gm == 3) { auto it = s.cells.upper_bound(t); if (it != s.cells.end() && g.chance(60)) st = it->first - t; } t = cal::fdiv(t + st + 59, 60) * 60; if (t <= key.back()) t = key.back() + 60; }
    n = (int)key.size(); a.times = key; a.gran = 60; a.flag = g.chance(25) ? 1 : 0;
  }
  a.dbl = s.dbl; a.v = genValues(c, n, a.dbl);
  auto ints = [&](int sz) { std::vector<int> v; int kind = (int)g.draw(4); uint32_t h = (uint32_t)g.draw(1 << 30); for (int i = 0; i < n * sz; i++) { h = h * 1664525u + 1013904223u; uint32_t r = h >> 8; v.push_back(kind == 0 ? 1 + (int)(r % 5) : kind == 1 ? (r % 3 ? 0 : (int)(r % 9)) : kind == 2 ? (int)h : 3); } return v; };
  if (g.chance(55)) { a.qs = g.chance(60) ? 1 : (int)g.range(2, 4); a.q = ints(a.qs); }
  if (s.noteKind && g.chance(5)) { s.noteKind = 3 - s.noteKind; s.mixed = true; c.label("other-note-kind"); }
  if (s.noteKind == 1 && g.chance(70)) { a.is = g.chance(60) ? 1 : (int)g.range(2, 4); a.in = ints(a.is); }
  if (s.noteKind == 2 && g.chance(70)) { int ml = g.pick({0, 3, 12, 40}); uint32_t h = (uint32_t)g.draw(1 << 30); int em = g.pick({0, 30, 80}); for (int i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; std::string x; if (ml && (int)((h >> 9) % 100) >= em) { int l = 1 + (h >> 12) % ml; for (int k = 0; k < l; k++) x.push_back("abc XYZ,;/19"[(h >> (k % 20)) % 12]); } a.cn.push_back(x); } }
  Meta m = s.proto; if (g.chance(10)) { m.units = g.pick<std::string>({"CFS", "FEET", "x y"}); m.type = g.pick<std::string>({"INST-VAL", "PER-AVER", "PER-CUM", "INST-CUM"}); m.precision = (int)g.range(-1, 8); }
  a.units = m.units; a.type = m.type; a.tz = m.tz; a.precision = m.precision; a.uh = m.uh; if (a.uh.size() && g.chance(20)) a.uh.clear();
  c.note("store %s n %d flag %d %s q%d in%d cn%zu uh%zu %s %s", cal::str(s.inst(key[0])).c_str(), n, a.flag, a.dbl ? "double" : "float", a.qs, a.is, a.cn.size(), a.uh.size(), a.units.c_str(), a.type.c_str());
  if (a.clone = c.s.chance(20)) { c.note("(from a clone of the structure)"); c.label("clone"); }
  int st = tsStore(d, s.path, a); if (st) c.fail("store returned %d", st);
  if (!s.reg && a.flag == 1) s.cells.erase(s.cells.lower_bound(key[0]), s.cells.upper_bound(key.back()));
  std::set<i64> sure, unsure;
  for (int i = 0; i < n; i++) {
    auto it = s.cells.find(key[i]); bool have = it != s.cells.end() && !isMiss(it->second.v), miss = isMiss(a.v[i]); i64 bk = s.blk(key[i]);
    if (s.reg && ((a.flag == 1 && have) || (a.flag == 4 && miss))) { unsure.insert(bk); // not replaced: an existing time keeps what it has
      if (it == s.cells.end() || (a.flag == 4 && !have)) { Cell x; x.v = MISS(); if (it != s.cells.end()) x = it->second; x.qk = x.ik = x.ck = false; s.cells[key[i]] = x; } continue; }
    if (miss) unsure.insert(bk); else sure.insert(bk);
    Cell x; x.v = a.v[i]; bool old = it != s.cells.end();
    if (a.qs) x.q = trimz(&a.q[(size_t)i * a.qs], a.qs); else if (old && (!it->second.q.empty() || !it->second.qk)) x.qk = false;
    if (a.is) x.in = trimz(&a.in[(size_t)i * a.is], a.is); else if (old && (!it->second.in.empty() || !it->second.ik)) x.ik = false;
    if (!a.cn.empty()) x.cn = a.cn[i]; else if (old && (!it->second.cn.empty() || !it->second.ck)) x.ck = false;
    if (a.qs || a.is || !a.cn.empty()) sure.insert(bk);
    s.cells[key[i]] = x;
  }
  for (i64 b : sure) { Meta x = m; if (a.uh.empty() && s.meta.count(b) && !s.meta[b].uh.empty()) x.uhKnown = false; x.uh = a.uh; s.meta[b] = x; }
  for (i64 b : unsure) if (!sure.count(b)) { Meta x = m; x.known = x.uhKnown = false; if (s.meta.count(b) || true) s.meta[b] = x; }
  if (a.qs) c.label("quality%d", a.qs); if (a.is) c.label("inotes%d", a.is); if (!a.cn.empty()) c.label("cnotes");
}
void retrieve(Case &c, Dss &d, Series &s, bool full) {
  auto &g = c.s; if (s.cells.empty()) return; TsQ q; q.window = true; q.notes = 1;
  i64 a = s.cells.begin()->first, b = s.cells.rbegin()->first, lo = a, hi = b; int mode = full ? 0 : (int)g.draw(4);
  auto some = [&] { auto it = s.cells.begin(); std::advance(it, g.draw(s.cells.size())); return it->first; };
  if (mode == 1) { i64 u = s.reg ? 1 : 60; lo = a - g.range(0, 15) * u; hi = b + g.range(0, 15) * u; } else if (mode >= 2) { lo = some(); hi = some(); if (hi < lo) std::swap(lo, hi); }
  if (s.reg) s.clamp(lo, hi);
  q.start = s.inst(lo); q.end = s.inst(hi); q.dbl = g.pick({0, 1, 2}); q.flag = full ? 0 : s.reg ? g.pick({0, 0, -1, -2, -3}) : g.pick({0, 0, 1, 2, 3});
  { int js, je, x; splitT(q.start, js, x); splitT(q.end, je, x); if (js == je && (js == 0 || js == -1)) return; } // listed finding of C03
  c.note("retrieve %s .. %s flag %d dbl %d", cal::str(q.start).c_str(), cal::str(q.end).c_str(), q.flag, q.dbl);
  // what must be there
  std::vector<std::pair<i64, Cell>> want; auto f = s.cells.lower_bound(lo), l = s.cells.upper_bound(hi); bool anyVal = false;
  for (auto it = f; it != l; ++it) if (!isMiss(it->second.v)) anyVal = true;
  TsOut o;
  if (s.reg) {
    if (!anyVal) { o = tsGet(d, s.path, q); return; }
    i64 x = lo, y = hi; if (q.flag == -1 || q.flag == -3) { auto m = [&](i64 k) { auto it = s.cells.find(k); return it == s.cells.end() || isMiss(it->second.v); }; while (m(x)) x++; while (m(y)) y--; c.label("trim"); }
    o = tsGet(d, s.path, q); if (o.status) c.fail("retrieve returned %d", o.status);
    if (x != lo || y != hi) { // quality or notes may keep a missing end in
      i64 rs = s.rt.slot(o.start); if (rs < lo || rs > x) c.fail("trimmed start %s, first value %s", cal::str(o.start).c_str(), cal::str(s.rt.at(x)).c_str());
      x = rs; i64 re = rs + o.nv - 1; if (re < y || re > hi) c.fail("trimmed end %s, last value %s", cal::str(s.rt.at(re)).c_str(), cal::str(s.rt.at(y)).c_str()); y = re; }
    for (i64 k = x; k <= y; k++) { auto it = s.cells.find(k); Cell e; if (it != s.cells.end()) e = it->second; else { e.v = MISS(); } want.push_back({k, e}); }
  } else {
    if ((q.flag & 1) && f != s.cells.begin()) { auto p = std::prev(f); i64 e = s.blk(lo), pb = s.blk(p->first); if (pb != e && c.isKnown("neighbour-not-in-adjacent-block")) return; if (pb != e) return; f = p; c.label("previous"); }
    if ((q.flag & 2) && l != s.cells.end()) { if (s.blk(l->first) != s.blk(hi)) return; ++l; c.label("next"); }
    want.assign(f, l); if (want.empty()) return;
    o = tsGet(d, s.path, q); if (o.status) c.fail("retrieve returned %d", o.status);
  }
  if (o.nv != (int)want.size()) c.fail("%d values returned, expected %zu", o.nv, want.size());
  if (o.haveCn && (int)o.cn.size() != o.nv) c.fail("%zu text notes returned for %d values", o.cn.size(), o.nv);
  for (int i = 0; i < o.nv; i++) {
    const Cell &e = want[i].second; std::string at = cal::str(s.inst(want[i].first));
    { i64 wt = s.inst(want[i].first); if (o.gran > 1) wt = cal::fdiv(wt, o.gran) * o.gran; if (o.haveTimes && o.t[i] != wt) c.fail("time %d is %s, expected %s", i, cal::str(o.t[i]).c_str(), at.c_str()); }
    double w = e.v, x = o.v[i]; if (isMiss(w)) { if (!isMiss(x)) c.fail("value at %s is %g, expected missing", at.c_str(), x); } else { if (!o.dbl) w = (double)(float)w; if (w != x) c.fail("value at %s is %g, expected %g", at.c_str(), x, w); }
    std::vector<int> gq = o.qs ? trimz(&o.q[(size_t)i * o.qs], o.qs) : std::vector<int>(), gi = o.is ? trimz(&o.in[(size_t)i * o.is], o.is) : std::vector<int>(); std::string gc = o.haveCn ? o.cn[i] : "";
    if (e.qk && gq != e.q) c.fail("quality at %s (value %d of %d) is %s, stored %s", at.c_str(), i, o.nv, show(gq).c_str(), show(e.q).c_str());
    if (e.ik && !s.mixed && gi != e.in) c.fail("note at %s (value %d of %d) is %s, stored %s", at.c_str(), i, o.nv, show(gi).c_str(), show(e.in).c_str());
    if (e.ck && !s.mixed && gc != e.cn) c.fail("note at %s (value %d of %d) is '%s', stored '%s'", at.c_str(), i, o.nv, gc.c_str(), e.cn.c_str());
  }
  // header fields, when every block in the window agrees on them
  const Meta *m = 0; bool same = true, uhSame = true; i64 b0 = s.blk(lo), b1 = s.blk(hi); if (!s.reg && q.flag) { b0 = s.blk(want[0].first); b1 = s.blk(want.back().first); }
  for (auto &p : s.meta) if (p.first >= b0 && p.first <= b1) { if (!p.second.known) same = false; if (!p.second.uhKnown) uhSame = false; if (m && (m->units != p.second.units || m->type != p.second.type || m->tz != p.second.tz || m->precision != p.second.precision)) same = false; if (m && m->uh != p.second.uh) uhSame = false; m = &p.second; }
  if (!m) return;
  if (same) { c.label("header checked");
    if (o.units != m->units) c.fail("units '%s', stored '%s'", o.units.c_str(), m->units.c_str()); if (o.type != m->type) c.fail("type '%s', stored '%s'", o.type.c_str(), m->type.c_str());
    if (o.tz != m->tz) c.fail("time zone '%s', stored '%s'", o.tz.c_str(), m->tz.c_str()); if (m->precision >= 0 && o.precision != m->precision) c.fail("precision %d, stored %d", o.precision, m->precision);
    if (uhSame && o.uh != m->uh) c.fail("user header of %zu ints, stored %zu", o.uh.size(), m->uh.size()); }
}
void run(Case &c) {
  quiet(); auto &g = c.s; Dss d; std::string file = c.path("t.dss"); int st = d.openFile(file); if (st) c.fail("open %d", st);
  Series s; s.reg = g.chance(55); s.dbl = g.chance(50); s.noteKind = (int)g.draw(3);
  s.proto.units = g.pick<std::string>({"CFS", "FEET", "cubic meters per second", "m3/s"}); s.proto.type = g.pick<std::string>({"INST-VAL", "PER-AVER", "PER-CUM", "INST-CUM"}); s.proto.tz = g.pick<std::string>({"", "PST", "America/Los_Angeles", "GMT+05:30"}); s.proto.precision = (int)g.range(-1, 8);
  if (g.chance(40)) { int k = 1 + (int)g.size(30); for (int i = 0; i < k; i++) s.proto.uh.push_back((int)g.draw(1 << 20) + 1); }
  if (s.reg) { const IvName &iv = g.pick(intervals()); s.rt = genRegTime(c, iv.sec); if (iv.sec == cal::WEEK) s.fenced = true; s.path = fmt("/A/B/FLOW//%s/F/", iv.name); c.label("regular"); } else { s.b = g.pick(irr()); s.path = fmt("/A/B/FLOW//%s/F/", s.b.name); c.label("irregular"); }
  c.note("series %s offset %lld", s.path.c_str(), s.rt.off);
  int nst = 0, nops = (int)g.range(2, c.tier ? 20 : 10); bool attr = false; (void)attr;
  for (int k = 0; k < nops; k++) {
    if (s.cells.empty() || g.chance(55)) { store(c, d, s); nst++; } else if (g.chance(10)) { d.close(); st = d.openFile(file); if (st) c.fail("reopen %d", st); } else retrieve(c, d, s, false);
  }
  c.note("final"); retrieve(c, d, s, true); d.close();
  bool any = false; for (auto &p : s.cells) if (!p.second.q.empty() || !p.second.in.empty() || !p.second.cn.empty()) any = true;
  if (any && nst >= 2) c.nontrivial(); if (s.meta.size() > 1) c.label("multi-block");
}
}
static eng::Reg r({"C05", "random histories of overlapping stores of regular and irregular series, each with or without quality (1-4 ints per value), integer or text notes, header fields and user header, then window retrievals; non-trivial: at least two stores and some value with quality or a note", run, 12000, 150000, "exploration", {"a series uses one kind of note (integer or text), as documented", "a time over-written by a store without an attribute may keep or lose that attribute", "header fields are compared when all record blocks in the window were last stored with the same ones"}});
