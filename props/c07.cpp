// C07: text (string, list, table) and array records in sequences of over-writes,
// against a map from pathname to the last record stored.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include "rawstore.hpp"
#include <fstream>
#include <sstream>
namespace {
typedef std::string S;
struct Rec { bool text = true; S str, table, labels; int rows = 0, cols = 0; IV uh; IV ai; std::vector<float> af; std::vector<double> ad; };
static S genChars(Case &c, int64_t n, bool raw) {
  S s; int kind = (int)c.s.draw(4); uint32_t h = (uint32_t)c.s.draw(1u << 20);
  for (int64_t i = 0; i < n; i++) { h = h * 1664525u + 1013904223u; char ch = kind == 0 ? 'a' + i % 26 : kind == 1 ? " ~!\n\t/;:\"\\"[(h >> 16) % 10] : kind == 2 ? (char)(h >> 13) : (char)(32 + (h >> 14) % 95); if (!raw && ch == 0) ch = 'z'; s.push_back(ch); }
  return s;
}
static int64_t genLen(Case &c, bool big) { switch (c.s.weighted({15, 40, 30, 15})) { case 0: return 0; case 1: return c.s.range(1, 24); case 2: return c.s.size(400); default: return big ? c.s.size(20000) : c.s.size(2000); } }
static Rec genRec7(Case &c, bool text, bool table) {
  Rec r; r.text = text;
  if (c.s.chance(40)) { genIV(c, r.uh, c.s.range(1, 40)); if (r.uh.size() & 1) for (auto &w : r.uh) w |= 0x01010101; } // odd headers are treated as text
  if (!text) { int m = (int)c.s.draw(8); int64_t k = genLen(c, true); if (m & 1) genIV(c, r.ai, k); if (m & 2) { r.af.resize(genLen(c, true)); IV b; genIV(c, b, r.af.size()); if (b.size()) memcpy(r.af.data(), b.data(), 4 * b.size()); } if (m & 4) { r.ad.resize(genLen(c, true)); IV b; genIV(c, b, 2 * r.ad.size()); if (b.size()) memcpy(r.ad.data(), b.data(), 4 * b.size()); } return r; }
  if (table) { // rows x cols cells, some empty
    r.cols = (int)c.s.range(2, 6); r.rows = (int)c.s.range(0, 20);
    for (int i = 0; i < r.rows * r.cols; i++) { r.table += genChars(c, c.s.chance(25) ? 0 : c.s.range(1, 12), false); r.table.push_back(0); }
    if (c.s.chance(70)) for (int i = 0; i < r.cols; i++) { r.labels += genChars(c, c.s.chance(20) ? 0 : c.s.range(1, 14), false); r.labels.push_back(0); }
  } else if (c.s.chance(35)) { r.cols = 1; r.rows = (int)c.s.range(1, 30); for (int i = 0; i < r.rows; i++) { r.table += genChars(c, c.s.chance(25) ? 0 : c.s.range(1, 30), false); r.table.push_back(0); } if (c.s.chance(50)) { r.labels = genChars(c, c.s.range(0, 14), false); r.labels.push_back(0); } }
  if (r.table.empty() || c.s.chance(30)) { int64_t n = genLen(c, true); r.str = genChars(c, n ? n : r.table.empty() ? 1 : 0, c.s.chance(50)); if (c.s.chance(20) && !r.str.empty()) r.str.back() = 0; }
  return r;
}
static bool sameHdr(int *u, int n, const IV &e) { IV g; if (u) g.assign(u, u + n); if (g == e) return true; if (!(e.size() & 1) || g.size() != e.size() + 1 || g.back() != 0x20202020) return false; g.pop_back(); return g == e; }
static int store(Case &c, Dss &d, const S &path, const Rec &r) {
  int st; // exact-size heap copies so that an over-read is seen
  if (r.text) {
    zStructText *t = zstructTextNew(path.c_str()); std::vector<char> a(r.str.begin(), r.str.end()), b(r.table.begin(), r.table.end()), l(r.labels.begin(), r.labels.end()); IV uh = r.uh;
    if (a.size()) t->textString = a.data(); t->numberTextChars = (int)a.size(); if (b.size()) t->textTable = b.data(); t->numberTableChars = (int)b.size(); t->numberRows = r.rows; t->numberColumns = r.cols; if (l.size()) t->labels = l.data(); t->numberLabelChars = (int)l.size(); if (uh.size()) t->userHeader = uh.data(); t->userHeaderNumber = (int)uh.size();
    st = ztextStore(d.ifltab, t);
    if (S(a.begin(), a.end()) != r.str || S(b.begin(), b.end()) != r.table || S(l.begin(), l.end()) != r.labels || uh != r.uh) c.fail("storing text changed the caller's arrays");
    t->textString = t->textTable = t->labels = 0; t->userHeader = 0; zstructFree(t);
  } else {
    zStructArray *t = zstructArrayNew(path.c_str()); IV ai = r.ai, uh = r.uh; auto af = r.af; auto ad = r.ad;
    if (ai.size()) t->intArray = ai.data(); t->numberIntArray = (int)ai.size(); if (af.size()) t->floatArray = af.data(); t->numberFloatArray = (int)af.size(); if (ad.size()) t->doubleArray = ad.data(); t->numberDoubleArray = (int)ad.size(); if (uh.size()) t->userHeader = uh.data(); t->userHeaderNumber = (int)uh.size();
    st = zarrayStore(d.ifltab, t); t->intArray = 0; t->floatArray = 0; t->doubleArray = 0; t->userHeader = 0; zstructFree(t);
  }
  return st;
}
static S q(const S &s) { S o; for (size_t i = 0; i < s.size() && i < 60; i++) { unsigned char ch = s[i]; if (ch < 32 || ch > 126) o += fmt("\\x%02x", ch); else o.push_back(ch); } return o + fmt("(%zu)", s.size()); }
static void same(Case &c, const char *what, const S &path, const S &g, const S &e) { if (g != e) c.fail("the %s of %s is \"%s\", stored \"%s\"", what, path.c_str(), q(g).c_str(), q(e).c_str()); }
static void check(Case &c, Dss &d, const S &path, const Rec *r, bool text) {
  if (text) {
    zStructText *t = zstructTextNew(path.c_str()); int st = ztextRetrieve(d.ifltab, t);
    if (!r) { if (st == 0) c.fail("%s was never stored but text was retrieved", path.c_str()); zstructFree(t); return; }
    if (st) c.fail("retrieving text %s gave %d", path.c_str(), st);
    same(c, "text", path, S(t->textString ? t->textString : "", t->textString ? t->numberTextChars : 0), r->str); same(c, "table", path, S(t->textTable ? t->textTable : "", t->textTable ? t->numberTableChars : 0), r->table); same(c, "labels", path, S(t->labels ? t->labels : "", t->labels ? t->numberLabelChars : 0), r->labels);
    if (t->textString && t->textString[t->numberTextChars]) c.fail("the text of %s is not terminated", path.c_str());
    if (t->numberTextChars != (int)r->str.size() || t->numberTableChars != (int)r->table.size() || t->numberLabelChars != (int)r->labels.size()) c.fail("%s reports %d/%d/%d characters, stored %zu/%zu/%zu", path.c_str(), t->numberTextChars, t->numberTableChars, t->numberLabelChars, r->str.size(), r->table.size(), r->labels.size());
    if (t->numberRows != r->rows || t->numberColumns != r->cols) c.fail("%s has %d rows and %d columns, stored %d and %d", path.c_str(), t->numberRows, t->numberColumns, r->rows, r->cols);
    if (!sameHdr(t->userHeader, t->userHeaderNumber, r->uh)) c.fail("the user header of %s differs", path.c_str());
    if (t->dataType != (r->cols > 1 ? DATA_TYPE_TEXT_TABLE : DATA_TYPE_TEXT) || zdataType(d.ifltab, path.c_str()) != t->dataType) c.fail("%s has type %d", path.c_str(), t->dataType);
    // cells stay in their row and column
    if (t->textTable && r->cols > 0) { const char *p = t->textTable, *e = p + t->numberTableChars; int n = 0; while (p < e) { p += strlen(p) + 1; n++; } if (n != r->rows * r->cols) c.fail("%s has %d cells, stored %d", path.c_str(), n, r->rows * r->cols); }
    zstructFree(t);
  } else {
    zStructArray *t = zstructArrayNew(path.c_str()); int st = zarrayRetrieve(d.ifltab, t);
    if (!r) { if (st == 0) c.fail("%s was never stored but an array was retrieved", path.c_str()); zstructFree(t); return; }
    if (st) c.fail("retrieving array %s gave %d", path.c_str(), st);
    if (t->numberIntArray != (int)r->ai.size() || t->numberFloatArray != (int)r->af.size() || t->numberDoubleArray != (int)r->ad.size()) c.fail("%s has %d/%d/%d elements, stored %zu/%zu/%zu", path.c_str(), t->numberIntArray, t->numberFloatArray, t->numberDoubleArray, r->ai.size(), r->af.size(), r->ad.size());
    if ((r->ai.size() && memcmp(t->intArray, r->ai.data(), 4 * r->ai.size())) || (r->af.size() && memcmp(t->floatArray, r->af.data(), 4 * r->af.size())) || (r->ad.size() && memcmp(t->doubleArray, r->ad.data(), 8 * r->ad.size()))) c.fail("an array of %s differs from that stored", path.c_str());
    if (!sameHdr(t->userHeader, t->userHeaderNumber, r->uh)) c.fail("the user header of %s differs", path.c_str());
    if (t->dataType != DATA_TYPE_ARRAY || zdataType(d.ifltab, path.c_str()) != DATA_TYPE_ARRAY) c.fail("%s has type %d", path.c_str(), t->dataType);
    zstructFree(t);
  }
}
static S slurp(const S &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void textFile(Case &c) {
  S in = c.path("in.txt"), out = c.path("out.txt"), body; int64_t n = c.s.range(1, 25); for (int64_t i = 0; i < n; i++) { body += genChars(c, c.s.chance(20) ? 0 : c.s.chance(10) ? c.s.range(900, 2100) : c.s.range(1, 70), false); if (i + 1 < n || c.s.chance(70)) body += "\n"; } if (body.empty()) body = "\n";
  { std::ofstream o(in, std::ios::binary); o << body; }
  Dss d; if (d.openFile(c.path("t.dss"))) c.fail("cannot create a file");
  int st = ztextStoreFromFile(d.ifltab, "/A/B/TEXT///FILE/", in.c_str()); if (st) c.fail("storing a text file gave %d", st);
  st = ztextRetrieveToFile(d.ifltab, "/a/b/text///file/", out.c_str()); if (st) c.fail("retrieving to a text file gave %d", st);
  same(c, "file written from", "/A/B/TEXT///FILE/", slurp(out), body); c.nontrivial(); c.note("text file of %zu bytes", body.size()); d.close();
}
static int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
extern "C" { int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *filename); int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *filename); }
// any file kept as a binary record
static void binFile(Case &c) {
  auto &g = c.s; Dss d; S f = c.path("t.dss"); if (d.openFile(f)) c.fail("cannot create a file"); int before = fds(); std::map<S, S> m; int n = (int)g.range(1, 6);
  for (int i = 0; i < n; i++) {
    S path = fmt("/A/B/File%d///V/", (int)g.draw(2)), in = c.path(fmt("in%d", (int)g.draw(2)).c_str()), body; int64_t len = g.weighted({50, 40, 10}) == 0 ? g.range(1, 40) : g.size(g.chance(15) ? 200000 : 5000); uint32_t h = (uint32_t)g.draw(1 << 16), style = (uint32_t)g.draw(3);
    for (int64_t k = 0; k < len; k++) { h = h * 1664525u + 1013904223u; body.push_back(style == 0 ? (char)(h >> 20) : style == 1 ? (char)0 : "ab\n\r\x1a\xff"[(h >> 16) % 6]); }
    { std::ofstream o(in, std::ios::binary); o << body; }
    int st = zbinaryStoreFromFile(d.ifltab, path.c_str(), in.c_str()); c.note("store a file of %zu bytes as %s -> %d", body.size(), path.c_str(), st);
    if (body.empty()) { if (!st) c.fail("an empty file was accepted"); } else { if (st) c.fail("storing a file of %zu bytes gave %d", body.size(), st); if (m.count(path)) c.nontrivial(); m[path] = body; }
    if (g.chance(20)) { d.close(); if (d.openFile(f)) c.fail("cannot reopen"); }
    S out = c.path("out"); if (g.chance(40)) { std::ofstream o(out, std::ios::binary); o << S((size_t)g.size(9000), 'x'); }
    for (auto &e : m) { st = zbinaryRetrieveToFile(d.ifltab, g.chance(30) ? up(e.first).c_str() : e.first.c_str(), out.c_str()); if (st) c.fail("retrieving %s to a file gave %d", e.first.c_str(), st); S got = slurp(out); if (got != e.second) { size_t x = 0; while (x < got.size() && x < e.second.size() && got[x] == e.second[x]) x++; c.fail("the file retrieved from %s has %zu bytes and differs at %zu, stored %zu bytes", e.first.c_str(), got.size(), x, e.second.size()); } }
    struct stat sb; if (m.empty() && !stat(out.c_str(), &sb)) unlink(out.c_str());
    if (zbinaryRetrieveToFile(d.ifltab, "/A/B/Never///V/", c.path("never").c_str()) == 0) c.fail("a file was retrieved from a record that does not exist");
    if (!stat(c.path("never").c_str(), &sb)) c.fail("a file was made for a record that does not exist"); c.evals(1);
  }
  int after = fds(); if (after != before) c.fail("%d files were left open", after - before);
  d.close();
}
static void runC07(Case &c) {
  quiet(); if (c.s.chance(6)) { c.label("text file"); textFile(c); return; }
  if (c.s.chance(6)) { c.label("binary file"); binFile(c); return; }
  Dss d; S f = c.path("t.dss"); if (d.openFile(f)) c.fail("cannot create a file");
  struct P { S path; bool text, table; }; std::vector<P> ps; int np = (int)c.s.range(1, 4); for (int i = 0; i < np; i++) { bool t = c.s.chance(60); ps.push_back({fmt("/A/B%d/%s///V/", i, t ? "Text" : "Array"), t, t && c.s.chance(45)}); }
  std::map<S, Rec> m; int n = (int)c.s.range(2, 14); bool over = false;
  for (int i = 0; i < n; i++) {
    P &p = ps[c.s.draw(np)];
    switch (c.s.weighted({60, 30, 10})) {
    case 0: { Rec r = genRec7(c, p.text, p.table); bool empty = r.text && r.str.empty() && r.table.empty(); S path = c.s.chance(30) ? up(p.path) : p.path; int st = store(c, d, path, r);
      c.note("store %s str %zu table %zu (%dx%d) labels %zu uh %zu / int %zu float %zu double %zu -> %d", p.path.c_str(), r.str.size(), r.table.size(), r.rows, r.cols, r.labels.size(), r.uh.size(), r.ai.size(), r.af.size(), r.ad.size(), st);
      if (empty) { if (!st) c.fail("an empty text record was accepted"); break; }
      if (st) c.fail("storing %s gave %d", p.path.c_str(), st); if (m.count(p.path)) { over = true; c.label("overwrite"); } c.label(p.text ? p.table ? "table" : "text" : "array"); m[p.path] = r; check(c, d, path, &m[p.path], p.text); break; }
    case 1: check(c, d, c.s.chance(30) ? up(p.path) : p.path, m.count(p.path) ? &m[p.path] : nullptr, p.text); c.evals(1); break;
    default: d.close(); if (d.openFile(f)) c.fail("cannot reopen"); }
  }
  if (over) c.nontrivial();
  for (auto &p : ps) check(c, d, p.path, m.count(p.path) ? &m[p.path] : nullptr, p.text);
  d.close();
}
}
static eng::Reg r({"C07", "a record was over-written with another of different size and read back", runC07, 6000, 80000, "exploration", {"table cells and labels contain no NUL (cells are NUL terminated)"}});
