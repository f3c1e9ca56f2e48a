// Pathname parts, forming, comparing, and the names a file accepts.
#include "rawstore.hpp"
typedef std::vector<std::string> Parts;
static std::string join(const Parts &p) { std::string s = "/"; for (auto &x : p) s += x + "/"; return s; }
// exactly sized heap copies, so that any access beyond them is caught
struct Buf { char *p; size_t n; Buf(size_t n) : p((char *)malloc(n ? n : 1)), n(n) { memset(p, '#', n); } Buf(const std::string &s) : Buf(s.size() + 1) { memcpy(p, s.c_str(), n); } Buf(const std::string &s, size_t cap) : Buf(cap) { memcpy(p, s.c_str(), s.size() + 1); } ~Buf() { free(p); } Buf(const Buf &) = delete; };
static const char *ALPHA = "ABCabcXYZxyz0189 .,-_|:;~*?!@#$%^&()[]{}<>+='\"\\`";
static std::string part(Case &c, int maxLen) {
  std::string s; if (maxLen < 1) return s;
  switch (c.s.weighted({3, 5, 1, 1})) {
  case 0: return "";
  case 1: s = c.s.text(c.s.range(1, std::min(20, maxLen)), ALPHA); break;
  case 2: s = c.s.text(c.s.range(0, maxLen), ALPHA); break;
  case 3: s = std::string(maxLen, c.s.chance(50) ? 'A' : 'z'); break;
  }
  // parts have no blanks at their ends
  while (!s.empty() && s.back() == ' ') s.pop_back();
  while (!s.empty() && s[0] == ' ') s.erase(0, 1);
  return s;
}
static Parts genParts(Case &c) {
  Parts p; for (;;) { p.clear(); int left = 392 - 7; for (int i = 0; i < 6; i++) { p.push_back(part(c, std::min(128, left))); left -= p[i].size(); } return p; }
}
static std::string sh(const std::string &s) { return s.size() > 90 ? s.substr(0, 80) + fmt("...(%zu)", s.size()) : s; }
static std::vector<long long> longs(const std::string &s) { std::vector<long long> v((s.size() + 7) / 8 + 1, 0); memcpy(v.data(), s.data(), s.size()); return v; }
static int refFind(const std::string &f, const std::string &g) { if (g.size() > f.size()) return -1; size_t p = up(f).find(up(g)); return p == std::string::npos ? -1 : (int)p; }
// an equally long pathname that differs in something other than case
static std::string differ(Case &c, const std::string &p) { std::string q = p; for (int t = 0; t < 20; t++) { size_t i = c.s.draw(q.size()); if (q[i] == '/') continue; char o = q[i]; q[i] = c.s.pick({'Q', '7', '_', '@', '[', '`', '{', 'q', '\x5f', '^', '~'}); if (toupper(q[i]) != toupper(o)) return q; q[i] = o; } return ""; }

static void pureParts(Case &c) {
  Parts p = genParts(c); std::string w = join(p); c.note("pathname %s", w.c_str());
  int filled = 0; for (auto &x : p) filled += !x.empty(); if (filled >= 2) c.nontrivial(); if (w.size() > 380) c.label("near the maximum length");
  { // forming, with room and without; blanks around parts do not count
    Parts q = p; for (auto &x : q) if (c.s.chance(20)) { x = std::string(c.s.range(0, 3), ' ') + x + std::string(c.s.range(0, 3), ' '); }
    size_t cap = c.s.chance(50) ? w.size() + 1 + c.s.range(0, 5) : c.s.range(1, w.size()); Buf b(cap);
    int n = zpathnameForm(q[0].c_str(), q[1].c_str(), q[2].c_str(), q[3].c_str(), q[4].c_str(), q[5].c_str(), b.p, cap); (void)n;
    if (!memchr(b.p, 0, cap)) c.fail("zpathnameForm into %zu bytes of %zu left the result without a terminator", cap, w.size() + 1);
    std::string g = b.p; std::string e = cap > w.size() ? w : w.substr(0, cap - 1);
    if (g != e) c.fail("zpathnameForm into %zu bytes gave \"%s\", expected \"%s\"", cap, g.c_str(), e.c_str());
    if (cap <= w.size()) c.label("form truncated");
  }
  Buf wb(w);
  for (int k = 1; k <= 6; k++) {
    auto &x = p[k - 1]; size_t cap = c.s.chance(60) ? x.size() + 1 + c.s.range(0, 5) : c.s.range(1, x.size() + 1); Buf b(cap);
    zpathnameGetPart(wb.p, k, b.p, cap); if (!memchr(b.p, 0, cap)) c.fail("zpathnameGetPart left its result without a terminator");
    std::string e = cap > x.size() ? x : x.substr(0, cap - 1);
    if (e != b.p) c.fail("part %d of \"%s\" is \"%s\", expected \"%s\"", k, w.c_str(), b.p, e.c_str());
    if (cap > x.size()) { Buf b2(cap); int n = zpathnameGetPart(wb.p, k, b2.p, cap); if (n != (int)x.size()) c.fail("zpathnameGetPart(%d) of \"%s\" returned %d, expected %zu", k, w.c_str(), n, x.size()); }
  }
  for (int k : {0, 7, -1, 100}) { Buf b(4); if (zpathnameGetPart(wb.p, k, b.p, 4) >= 0 || b.p[0]) c.fail("zpathnameGetPart accepted part %d", k); }
  { int L[8], P[8]; for (int &x : L) x = -99; int n = zpathnamePartLengths(w.c_str(), w.size(), L, 6); if (n != 6) c.fail("\"%s\" has %d parts", w.c_str(), n);
    int pos = 1; for (int i = 0; i < 6; i++) if (L[i] != (int)p[i].size()) c.fail("length of part %d of \"%s\" is %d", i + 1, w.c_str(), L[i]);
    for (int &x : P) x = -99; n = zpathnamePartPositions(w.c_str(), w.size(), P, 7); if (n != 7) c.fail("zpathnamePartPositions of \"%s\" returned %d", w.c_str(), n);
    for (int i = 0; i < 7; i++) { if (P[i] != pos) c.fail("position %d of \"%s\" is %d, expected %d", i, w.c_str(), P[i], pos); if (i < 6) pos += p[i].size() + 1; } }
  // replacing parts
  { Parts q = p; size_t cap = c.s.chance(50) ? 393 : std::max<size_t>(w.size() + 1, std::min<size_t>(393, w.size() + 1 + c.s.range(0, 30))); Buf b(w, cap);
    for (int i = 0, n = (int)c.s.range(1, 6); i < n; i++) {
      int k = (int)c.s.range(1, 6); int old = q[k - 1].size(); std::string x;
      switch (c.s.weighted({4, 2, 2})) { case 0: x = part(c, 60); break; case 1: x = part(c, old); break; default: { // exactly filling the buffer, or one more
        int room = (int)cap - 1 - ((int)join(q).size() - old); x = std::string(std::max(0, std::min(128, room + (int)c.s.range(0, 2))), 'R'); } }
      Parts r = q; r[k - 1] = x; std::string e = join(r); int st = zpathnameSetPart(b.p, cap, Buf(x).p, k);
      if (e.size() + 1 <= cap) { if (st != 0) c.fail("zpathnameSetPart(%d, \"%s\") in \"%s\" failed with %d though %zu of %zu bytes are needed", k, x.c_str(), join(q).c_str(), st, e.size() + 1, cap); q = r; if (e != b.p) c.fail("zpathnameSetPart(%d, \"%s\") gave \"%s\", expected \"%s\"", k, x.c_str(), b.p, e.c_str()); }
      else { c.label("no room for a part"); if (st == 0) c.fail("zpathnameSetPart(%d) made a pathname of %zu bytes in %zu", k, e.size() + 1, cap); if (join(q) != b.p) c.fail("a refused zpathnameSetPart changed the pathname to \"%s\"", b.p); }
    }
    if (zpathnameSetPart(b.p, cap, "X", c.s.pick({0, 7, -3})) == 0) c.fail("zpathnameSetPart accepted a part that does not exist"); }
  // comparing
  { std::string v = recase(c, w); auto L = longs(v); if (zpathnameCompare(w.c_str(), L.data(), w.size()) != 1) c.fail("\"%s\" and \"%s\" compare different", w.c_str(), v.c_str());
    if (zstringCompare(w.c_str(), v.c_str(), w.size()) != 1) c.fail("zstringCompare: \"%s\" and \"%s\" differ", w.c_str(), v.c_str());
    if (zstringCompare(v.c_str(), w.c_str(), w.size()) != 1) c.fail("zstringCompare is not symmetric");
    std::string d = differ(c, v); if (!d.empty()) { auto M = longs(d); if (zpathnameCompare(w.c_str(), M.data(), w.size()) != 0) c.fail("\"%s\" and \"%s\" compare equal", w.c_str(), d.c_str()); if (zstringCompare(w.c_str(), d.c_str(), w.size()) != 0) c.fail("zstringCompare: \"%s\" and \"%s\" are equal", w.c_str(), d.c_str()); } }
  // cleaning
  { std::string dirty; for (char ch : w) { while (c.s.chance(4)) dirty += c.s.pick({'\n', '\t', '\x01', '\x7f', '\x1f', '\xff', '\x80', '\xc3'}); dirty += ch; } if (c.s.chance(50)) dirty += c.s.text(c.s.range(0, 12), ALPHA);
    size_t cap = c.s.chance(50) ? w.size() + 1 + c.s.range(0, 3) : c.s.range(1, w.size() + 1); Buf b(cap); Buf in(dirty); int n = zpathnameClean(b.p, cap, in.p); if (!memchr(b.p, 0, cap)) c.fail("zpathnameClean left its result without a terminator");
    std::string e = cap > w.size() ? w : w.substr(0, cap - 1); if (e != b.p || n != (int)e.size()) c.fail("zpathnameClean into %zu bytes gave \"%s\" (%d), expected \"%s\"", cap, b.p, n, e.c_str()); }
  // searching text in text of given length (no terminators)
  { std::string f = c.s.chance(50) ? w : c.s.text(c.s.range(0, 14), "aAbB/"), g; if (c.s.chance(60) && f.size()) { size_t a = c.s.draw(f.size()), l = c.s.range(1, f.size() - a); g = recase(c, f.substr(a, l)); if (c.s.chance(30)) g += "a"; } else g = c.s.text(c.s.range(1, 4), "aAbB/");
    Buf fb(f.size()), gb(g.size()); memcpy(fb.p, f.data(), f.size()); memcpy(gb.p, g.data(), g.size()); int r = zfindString(fb.p, f.size(), gb.p, g.size()), e = refFind(f, g);
    if (r != e) c.fail("zfindString(\"%s\", \"%s\") = %d, expected %d", f.c_str(), g.c_str(), r, e); }
  // collections: pathnames of one collection differ in the member only
  { Parts q = p; q[5] = part(c, 60); if (q[5].size() > 1 && toupper(q[5][0]) == 'C' && q[5][1] == ':') q[5][0] = 'K'; auto tooLong = [](const Parts &z) { return join(z).size() > 380; };
    if (!tooLong(q)) { int n1 = c.s.range(0, 999999), n2 = c.s.range(0, 999999); auto mem = [&](int n) { Parts z = q; z[5] = fmt("C:%06d|", n) + q[5]; return join(z); };
      Buf base(join(q)); char *s1 = zsetCollectionSequence(base.p, n1); if (!s1 || mem(n1) != s1) c.fail("zsetCollectionSequence(\"%s\", %d) = \"%s\"", base.p, n1, s1 ? s1 : "(null)");
      char *s2 = zsetCollectionSequence(s1, n2); if (!s2 || mem(n2) != s2) c.fail("zsetCollectionSequence(\"%s\", %d) = \"%s\"", s1, n2, s2 ? s2 : "(null)");
      if (zpathnameCompareCollection(s1, s2, strlen(s1)) != 1) c.fail("\"%s\" and \"%s\" are not of one collection", s1, s2);
      std::string d = differ(c, mem(n2)); size_t fpos = join(q).size() - q[5].size() - 1; if (!d.empty()) { bool diffOut = false; for (size_t i = 0; i < d.size(); i++) if (toupper(d[i]) != toupper(s1[i]) && (i < fpos || i >= fpos + 9)) diffOut = true; if (diffOut && zpathnameCompareCollection(s1, d.c_str(), d.size()) != 0) c.fail("\"%s\" and \"%s\" are taken for one collection", s1, d.c_str()); }
      free(s1); free(s2); } }
}
static std::string listing(Dss &d, Case &c, std::set<std::string> &names) {
  zStructCatalog *k = zstructCatalogNew(); int n = zcatalog(d.ifltab, nullptr, k, 0); std::string r; if (n < 0) c.fail("zcatalog returned %d", n);
  names.clear(); for (int i = 0; i < n; i++) names.insert(k->pathnameList[i]); if ((int)names.size() != n) c.fail("the catalogue lists a pathname twice"); zstructFree(k); return r;
}
static void files(Case &c) {
  Dss d; int hash = 0, bin = 0; genConfig(c, hash, bin); std::string f = c.path("p.dss"); if (zopenExtended(d.ifltab, f.c_str(), 7, 0, 0, hash, bin)) c.fail("cannot create");
  std::map<std::string, std::pair<std::string, int>> model; // upper case name -> name as first stored, value
  int n = (int)c.s.range(1, 12), val = 100; std::set<std::string> names;
  for (int i = 0; i < n; i++) {
    Parts p = genParts(c); std::string w = join(p); bool bad = false;
    switch (c.s.weighted({4, 2, 2, 2})) {
    case 0: break;
    case 1: if (!model.empty()) { auto it = model.begin(); std::advance(it, c.s.draw(model.size())); w = it->second.first; std::string x = differ(c, w); if (c.s.chance(60) && !x.empty()) w = x; w = recase(c, w); } break;
    case 2: // around the documented maximum
      { int len = (int)c.s.range(388, 396); if (c.s.chance(15)) len = (int)c.s.range(397, 900); Parts q(6); int left = len - 7; for (int k = 0; k < 6; k++) { int l = k == 5 ? left : (int)c.s.range(0, std::min(120, left)); q[k] = c.s.text(l, "ABCxyz019"); left -= l; } w = join(q); bad = len > 392; c.label(bad ? "too long" : "long"); } break;
    case 3: bad = true; w = ""; c.label("empty pathname"); break;
    }
    // a pathname whose blanks or lack of a first slash make it another one is not generated
    long long nrec = zinquire(d.ifltab, "nrec"); int st; const char *what; std::string from; std::string U = up(w);
    if (!bad && w.size() > 20) c.nontrivial();
    int op = (int)c.s.weighted({6, 2, 2, 2, 2, 2}); if (model.empty() && op >= 2) op = 0; if (op >= 2) { auto it = model.begin(); std::advance(it, c.s.draw(model.size())); from = it->second.first; }
    if (op >= 2 && up(from) == U) op = 0; if (op >= 2 && model.count(U)) op = 0; if (!bad && op >= 4) op = 0;
    int v[2] = {++val, i};
    auto write = [&](const std::string &w) { zStructTransfer *t = zstructTransferNew(Buf(w).p, 0); t->dataType = 300; t->values1 = v; t->values1Number = 2; int st = zwrite(d.ifltab, t); zstructFree(t); return st; };
    Buf wb(w), fb(from);
    switch (op) {
    case 0: what = "zwrite"; st = write(w); if (!st) { if (model.count(U)) model[U].second = val; else model[U] = {w, val}; } break;
    case 1: what = "zarrayStore"; if (model.count(U)) { st = -2; if (!bad) continue; } if (!bad) continue; { zStructArray *a = zstructArrayNew(wb.p); a->intArray = v; a->numberIntArray = 2; st = zarrayStore(d.ifltab, a); zstructFree(a); } break;
    case 2: what = "zrename"; st = zrename(d.ifltab, fb.p, wb.p); if (!st) { int o = model[up(from)].second; model.erase(up(from)); model[U] = {w, o}; } break;
    case 3: what = "zduplicateRecord"; st = zduplicateRecord(d.ifltab, fb.p, wb.p); if (!st) model[U] = {w, model[up(from)].second}; break;
    case 4: what = "zaliasAdd"; st = zaliasAdd(d.ifltab, fb.p, wb.p); break;
    default: what = "hec_dss_textStore / zdelete"; st = c.s.chance(50) ? zdelete(d.ifltab, wb.p) : zcheck(d.ifltab, wb.p); break;
    }
    c.note("%s \"%s\" -> %d", what, sh(w).c_str(), st);
    if (bad) { if (st == 0) c.fail("%s accepted a pathname of %zu characters", what, w.size()); if (zinquire(d.ifltab, "nrec") != nrec) c.fail("a refused %s changed the number of records from %lld to %lld", what, nrec, zinquire(d.ifltab, "nrec")); }
    else if (st != 0) c.fail("%s of the pathname \"%s\" failed with %d", what, w.c_str(), st);
  }
  if (c.s.chance(50)) { zclose(d.ifltab); memset(d.ifltab, 0, sizeof d.ifltab); if (zopenExtended(d.ifltab, f.c_str(), 7, 0, 0, 0, 0)) c.fail("cannot reopen"); }
  listing(d, c, names); std::set<std::string> want; for (auto &m : model) want.insert(m.second.first);
  for (auto &w : want) if (!names.count(w)) c.fail("\"%s\" is stored but not listed", w.c_str()); for (auto &w : names) if (!want.count(w)) c.fail("\"%s\" is listed but was never stored", w.c_str());
  for (auto &m : model) {
    std::string v = recase(c, m.second.first); if (zcheck(d.ifltab, Buf(v).p) != 0) c.fail("\"%s\" is not found as \"%s\"", m.second.first.c_str(), v.c_str());
    zStructTransfer *t = zstructTransferNew(v.c_str(), 1); int st = zread(d.ifltab, t); if (st != 0 || t->values1Number != 2 || t->values1[0] != m.second.second) c.fail("reading \"%s\": status %d, value %d, expected %d", v.c_str(), st, t->values1Number > 0 ? t->values1[0] : -1, m.second.second); zstructFree(t);
    std::string x = differ(c, m.second.first); if (!x.empty() && !model.count(up(x)) && zcheck(d.ifltab, Buf(x).p) == 0) c.fail("\"%s\" was found though only \"%s\" is stored", x.c_str(), m.second.first.c_str());
  }
  if (zcheckFile(d.ifltab) != 0) c.fail("the file check reports an error");
}
static void runC12(Case &c) { quiet(); if (c.s.chance(25)) files(c); else pureParts(c); }
static eng::Reg r({"C12", "at least two parts are filled, or a record was stored under a pathname of more than 20 characters", runC12, 12000, 400000, "exploration",
  {"parts are printable ASCII without slashes, at most 128 characters, without blanks at their ends (blanks there are trimmed by design)", "letter case means ASCII case", "a pathname without seven slashes is completed by the library and not generated"}});
