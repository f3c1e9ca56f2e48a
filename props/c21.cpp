// Canonical form of tagged F parts.
#include "ts.hpp"
extern "C" {
#include "normalizeFPart.h"
}
namespace {
static int mdim(int y, int m) { return m == 2 ? (y % 4 == 0 && (y % 100 || y % 400 == 0) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
struct Ref { int st; int alt; std::string out; };
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool aln(char c) { return dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool okTime(const std::string &v, bool secs) {
  if (v.size() != (secs ? 15u : 13u)) return false; for (size_t i = 0; i < v.size(); i++) if (i == 8 ? v[i] != '-' : !dig(v[i])) return false;
  auto n = [&](int a, int l) { return atoi(v.substr(a, l).c_str()); }; int y = n(0, 4), m = n(4, 2), d = n(6, 2), H = n(9, 2), M = n(11, 2), S = secs ? n(13, 2) : 0;
  if (m < 1 || m > 12 || d < 1 || d > mdim(y, m)) return false; return M < 60 && S < 60 && (H < 24 || (H == 24 && M == 0 && S == 0));
}
static bool okTag(char t, const std::string &v) {
  switch (t) { case 'N': return true; case 'T': return okTime(v, false); case 'V': return okTime(v, true);
  case 'C': if (v.size() != 6) return false; for (char c : v) if (!aln(c)) return false; return true;
  default: if (v.size() % 2) return false; for (size_t i = 0; i < v.size(); i += 2) if (!(v[i] == '-' && v[i + 1] == '-') && !(aln(v[i]) && dig(v[i + 1]))) return false; return true; }
}
// the documented rules: tags C N T R V, "X:value" separated by '|', at most one untagged part, canonical order, untagged last
static Ref refN(const std::string &f) {
  Ref r{0, -1, ""}; if (f.empty()) { r.st = 4; return r; } if (f.find(':') == std::string::npos) { r.st = 1; return r; }
  std::map<char, std::string> tags; bool have = false; std::string rest; size_t i = 0; int err = 0;
  while (i < f.size() && !err) { size_t j = f.find('|', i); if (j == std::string::npos) j = f.size(); std::string t = f.substr(i, j - i); i = j + 1; if (t.empty()) continue;
    size_t k = t.find(':'); if (k == std::string::npos) { if (have) err = 3; else { have = true; rest = t; } continue; }
    if (k != 1) { err = 2; continue; } char T = toupper((unsigned char)t[0]); std::string v = t.substr(2);
    if (!strchr("CNTRV", T)) err = 11; else if (tags.count(T)) err = 12; else if (!okTag(T, v)) err = T == 'C' ? 13 : T == 'T' ? 14 : T == 'V' ? 15 : 16; else tags[T] = v; }
  // text after which another (empty) untagged part follows
  if (have && f.back() == '|') { r.st = 3; r.alt = err ? err : -1; return r; }
  if (err) { r.st = err; return r; }
  for (const char *p = "CNTRV"; *p; p++) if (tags.count(*p)) r.out += fmt("%c:", *p) + tags[*p] + "|"; r.out += rest; return r;
}
struct Tagged { std::vector<std::pair<char, std::string>> tags; std::string rest; };
static std::string two(int n) { return fmt("%02d", n); }
static std::string genTime(Case &c, bool secs) { int y = c.s.chance(70) ? (int)c.s.range(1900, 2100) : (int)c.s.range(1, 9999), m = (int)c.s.range(1, 12), d = c.s.chance(30) ? mdim(y, m) : (int)c.s.range(1, mdim(y, m)); bool e = c.s.chance(8); return fmt("%04d", y) + two(m) + two(d) + "-" + two(e ? 24 : (int)c.s.range(0, 23)) + two(e ? 0 : (int)c.s.range(0, 59)) + (secs ? two(e ? 0 : (int)c.s.range(0, 59)) : ""); }
static Tagged genTagged(Case &c) {
  Tagged t; for (char k : {'C', 'N', 'T', 'R', 'V'}) if (c.s.chance(50)) { std::string v;
    switch (k) { case 'C': v = c.s.chance(50) ? fmt("%06d", (int)c.s.range(0, 999999)) : c.s.text(6, "abcXYZ019"); break; case 'N': v = c.s.text(c.s.range(0, 14), "ABCxyz 0-:._~"); break; case 'T': v = genTime(c, false); break; case 'V': v = genTime(c, true); break;
      default: for (int i = 0, n = (int)c.s.range(0, 5); i < n; i++) v += c.s.chance(30) ? std::string("--") : c.s.text(1, "ABab19") + c.s.text(1, "0129"); } t.tags.push_back({k, v}); }
  if (c.s.chance(65)) { t.rest = c.s.text(c.s.range(1, 20), "ABCxyz 0-._~"); t.rest[0] = 'O'; if (t.rest.back() == ' ') t.rest.back() = '.'; }
  return t;
}
static std::string spell(Case &c, Tagged t, bool exact) {
  std::vector<std::string> items; for (auto &k : t.tags) items.push_back(std::string(1, !exact && c.s.chance(30) ? tolower(k.first) : k.first) + ":" + k.second); if (!t.rest.empty()) items.push_back(t.rest);
  if (!exact) for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[c.s.draw(i)]);
  std::string s; for (size_t i = 0; i < items.size(); i++) { if (i) s += !exact && c.s.chance(8) ? "||" : "|"; s += items[i]; } if (t.rest.empty() && !items.empty() && (exact || c.s.chance(60))) s += "|"; return s;
}
static std::string sh(const char *p) { return p ? fmt("\"%s\"", p) : "(null)"; }
static int norm(const std::string &f, std::string &out) { char *in = strdup(f.c_str()), *o = (char *)1; int st = normalizeFPart(&o, in); out = o ? o : ""; bool null = !o; if (o) free(o); free(in); if (st == 0 && null) return -77; if (st != 0 && !null) return -78; return st; }
static void one(Case &c, const std::string &f) {
  Ref r = refN(f); std::string o; int st = norm(f, o); if (st != r.st && st != r.alt) c.fail("normalising \"%s\" gave status %d (\"%s\"), expected %d (\"%s\")", f.c_str(), st, o.c_str(), r.st, r.out.c_str());
  if (st == 0) { if (o != r.out) c.fail("normalising \"%s\" gave \"%s\", expected \"%s\"", f.c_str(), o.c_str(), r.out.c_str()); std::string o2; if (norm(o, o2) != 0 || o2 != o) c.fail("normalising is not idempotent: \"%s\" gives \"%s\", then \"%s\"", f.c_str(), o.c_str(), o2.c_str()); }
  if (!!canUseOriginalFPart(st) != (st < 10)) c.fail("canUseOriginalFPart(%d)", st); if (!normalizeFPartErrorMessage(st) || !*normalizeFPartErrorMessage(st)) c.fail("no message for status %d", st);
  c.label("status %d", r.st);
  // within a pathname
  if (f.size() < 125 && f.find('/') == std::string::npos) { std::string pre = "/" + c.s.text(c.s.range(0, 20), "ABc x:|") + "/" + c.s.text(c.s.range(0, 120), "ABc x:") + "/C//" + c.s.pick<std::string>({"1Hour", "IR-Year", ""}) + "/", p = pre + f + "/"; char *in = strdup(p.c_str()), *q = (char *)1; int s2 = normalizeFPartInPathname(&q, in);
    std::string e = r.st == 0 ? pre + r.out + "/" : p; int es = r.st < 10 ? 0 : r.st; if (s2 != es && !(r.alt > 0 && s2 == r.alt)) c.fail("normalising the pathname \"%s\" gave status %d, expected %d", in, s2, es); if (s2 == 0 ? (!q || e != q) : q != nullptr) c.fail("normalising the pathname \"%s\" gave %s, expected \"%s\"", in, sh(q).c_str(), e.c_str()); if (q) free(q); free(in); }
}
static std::string mutate(Case &c, std::string f) {
  for (int i = 0, n = (int)c.s.range(1, 3); i < n; i++) { size_t p = f.empty() ? 0 : c.s.draw(f.size()); char ch = c.s.text(1, "|:CNTRVcQ0129-A3x")[0]; switch (c.s.draw(4)) { case 0: if (!f.empty()) f[p] = ch; break; case 1: f.insert(p, 1, ch); break; case 2: if (!f.empty()) f.erase(p, 1); break; default: { size_t q = f.find_first_of("0123456789", p); if (q != std::string::npos) f[q] = c.s.text(1, "0123456789")[0]; } } }
  return f;
}
static void store(Case &c) {
  Dss d; if (d.openFile(c.path("f.dss"))) c.fail("cannot create"); std::map<std::string, std::vector<double>> model; std::map<std::string, std::string> shown;
  std::vector<Tagged> ts; for (int i = 0, n = (int)c.s.range(1, 4); i < n; i++) { Tagged t = genTagged(c); if (t.tags.empty()) t.tags.push_back({'N', fmt("v%d", i)}); ts.push_back(t); }
  bool irr = c.s.chance(40); std::string pre = irr ? "/A/B/FLOW//IR-Year/" : "/A/B/FLOW//1Hour/"; double v = 0; i64 T0 = cal::days(2001, 3, 5) * cal::DAY + 3600;
  for (int i = 0, n = (int)c.s.range(2, 9); i < n; i++) {
    const Tagged &t = c.s.pick(ts); std::string f = spell(c, t, false), key = up(refN(f).out); bool bad = false; if (c.s.chance(20)) { f = mutate(c, f); Ref r = refN(f); bad = r.st >= 10; if (!bad || r.alt > 0 || f.size() > 120) continue; }
    TsIn in; in.start = T0; for (int k = 0; k < 5; k++) { in.v.push_back(++v); if (irr) in.times.push_back(T0 + 3600 * k); } in.flag = irr ? 1 : 0; long long nrec = zinquire(d.ifltab, "nrec");
    int st = tsStore(d, pre + f + "/", in); c.note("store %s -> %d", f.c_str(), st);
    if (bad) { c.label("malformed tags refused"); if (!zisError(st)) c.fail("a store under the malformed F part \"%s\" returned %d", f.c_str(), st); if (zinquire(d.ifltab, "nrec") != nrec) c.fail("the refused store under \"%s\" added a record", f.c_str()); TsQ q; q.all = true; TsOut o = tsGet(d, pre + f + "/", q); if (!zisError(o.status)) c.fail("retrieving under the malformed F part \"%s\" returned %d", f.c_str(), o.status); continue; }
    if (st) c.fail("the store under \"%s\" failed with %d", f.c_str(), st); if (!model.count(key)) shown[key] = refN(f).out; else { c.label("same record under another spelling"); c.nontrivial(); } model[key] = in.v; if (t.tags.size() > 1) c.nontrivial();
  }
  long long n = zinquire(d.ifltab, "nrec"); if (n != (long long)model.size()) c.fail("%zu different F parts were stored as %lld records", model.size(), n);
  zStructCatalog *k = zstructCatalogNew(); int m = zcatalog(d.ifltab, nullptr, k, 0); if (m != (int)model.size()) c.fail("the catalogue lists %d records, expected %zu", m, model.size());
  for (int i = 0; i < m; i++) { char b[400]; zpathnameGetPart(k->pathnameList[i], 6, b, sizeof b); std::string o; norm(b, o); if (!shown.count(up(b)) || o != b) c.fail("the catalogue lists the F part \"%s\", which is not the canonical form of one stored", b); } zstructFree(k);
  for (auto &t : ts) { std::string f = spell(c, t, false), key = up(refN(f).out); if (!model.count(key)) continue; TsQ q; q.window = true; q.start = T0; q.end = T0 + 4 * 3600; TsOut o = tsGet(d, pre + f + "/", q); if (o.status || o.v != model[key]) c.fail("retrieving as \"%s\": status %d, %d values, first %g, expected first %g", f.c_str(), o.status, o.nv, o.nv ? o.v[0] : 0, model[key][0]); }
}
static void runC21(Case &c) {
  quiet(); if (c.s.chance(12)) return store(c);
  for (int it = 0; it < 12; it++) {
    Tagged t = genTagged(c); std::string can = spell(c, t, true), f = spell(c, t, false);
    if (!t.tags.empty()) { if (t.tags.size() > 1 || !t.rest.empty()) c.nontrivial(); if (f.back() == '|' && !t.rest.empty()) continue; std::string o; int st = norm(f, o); c.note("%s", f.c_str()); if (st != 0 || o != can) c.fail("the tags \"%s\" normalise to \"%s\" (status %d), expected \"%s\"", f.c_str(), o.c_str(), st, can.c_str()); }
    one(c, f); std::string g = mutate(c, f); c.note("%s", g.c_str()); one(c, g);
    if (c.s.chance(30)) one(c, c.s.text(c.s.range(0, 12), "|:NNcR0-a"));
  }
  c.evals(24);
}
}
static eng::Reg r({"C21", "an F part of at least two tags (or a tag and a remainder) was normalised, or a record met under two spellings", runC21, 8000, 200000, "exploration",
  {"tags are those of normalizeFPart.h; normalisation applies to time series in version 7 files", "an F part with text, an ending '|' and a bad tag may be taken as untagged or refused", "pathname parts of at most 128 characters"}});
