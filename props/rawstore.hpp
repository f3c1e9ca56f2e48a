// Model of a DSS file as a map from upper-cased pathname to raw record, plus
// helpers that drive the record level interface (zwrite/zread/...).
#pragma once
#include "dss.hpp"
#include <unistd.h>
#include <sys/stat.h>

typedef std::vector<int> IV;
struct RawRec {
  int type = 300;
  IV ih, h2, uh, v1, v2, v3;
  int nval = 0, lval = 0;
};
inline std::string up(std::string s) { for (auto &c : s) c = toupper((unsigned char)c); return s; }

struct Dss {
  long long ifltab[250];
  bool open = false;
  std::string file;
  Dss() { memset(ifltab, 0, sizeof ifltab); }
  int openFile(const std::string &f, int access = 0, int hash = 0, int bin = 0, int maxp = 0) {
    memset(ifltab, 0, sizeof ifltab); file = f;
    int st = zopenExtended(ifltab, f.c_str(), 7, access, maxp, hash, bin);
    open = st == 0; return st;
  }
  int close() { int st = 0; if (open) st = zclose(ifltab); open = false; return st; }
};


inline void genIV(Case &c, IV &v, int64_t n) {
  v.resize(n);
  if (!n) return;
  // content: a simple recognisable pattern derived from one draw, plus special values
  int base = (int)c.s.draw(1u << 30);
  int kind = (int)c.s.draw(4);
  for (int64_t i = 0; i < n; i++) v[i] = kind == 0 ? base : kind == 1 ? base + (int)i : kind == 2 ? (int)(base * (i + 1) * 2654435761u) : (int)(((uint32_t)base >> (i % 20)) * 0x01010101u);
}
inline RawRec genRec(Case &c, int type, int64_t maxValues) {
  RawRec r; r.type = type; auto &s = c.s;
  genIV(c, r.v1, s.size(maxValues));
  if (s.chance(40)) genIV(c, r.ih, s.size(40));
  if (s.chance(25)) genIV(c, r.h2, s.size(30));
  if (s.chance(30)) { genIV(c, r.uh, s.size(40)); if (r.uh.size() & 1) for (auto &w : r.uh) w |= 0x01010101; } // odd headers are treated as text
  if (s.chance(35)) genIV(c, r.v2, s.size(maxValues));
  if (s.chance(35)) genIV(c, r.v3, s.size(maxValues / 2));
  r.nval = (int)s.draw(100); r.lval = s.chance(30) ? r.nval + (int)s.draw(50) : 0;
  return r;
}
inline std::string recStr(const RawRec &r) { return fmt("type %d ih%zu h2%zu uh%zu v1%zu v2%zu v3%zu n%d", r.type, r.ih.size(), r.h2.size(), r.uh.size(), r.v1.size(), r.v2.size(), r.v3.size(), r.nval); }

inline int rawWrite(Dss &d, const std::string &path, const RawRec &r, int allocExtra = 0) {
  zStructTransfer *t = zstructTransferNew(path.c_str(), 0);
  IV ih = r.ih, h2 = r.h2, uh = r.uh, v1 = r.v1, v2 = r.v2, v3 = r.v3;
  auto pad = [](IV &v) { IV w = v; if (w.size() & 1) w.push_back(0); return w; };
  IV a = pad(ih), b = pad(h2), u = pad(uh), x = pad(v1), y = pad(v2), z = pad(v3);
  t->dataType = r.type;
  t->internalHeader = a.data(); t->internalHeaderNumber = (int)r.ih.size();
  t->header2 = b.data(); t->header2Number = (int)r.h2.size();
  t->userHeader = u.data(); t->userHeaderNumber = (int)r.uh.size();
  t->values1 = x.data(); t->values1Number = (int)r.v1.size();
  t->values2 = y.data(); t->values2Number = (int)r.v2.size();
  t->values3 = z.data(); t->values3Number = (int)r.v3.size();
  t->numberValues = r.nval; t->logicalNumberValues = r.lval;
  t->totalAllocatedSize = allocExtra; t->totalExpandedSize = allocExtra;
  int st = zwrite(d.ifltab, t);
  t->internalHeader = t->header2 = t->userHeader = t->values1 = t->values2 = t->values3 = 0;
  zstructFree(t);
  return st;
}
// 0 found, -1 not found, else error
inline int rawRead(Dss &d, const std::string &path, RawRec &r) {
  zStructTransfer *t = zstructTransferNew(path.c_str(), 1);
  int st = zread(d.ifltab, t);
  if (st == 0) {
    r.type = t->dataType;
    auto take = [](IV &v, int *p, int n) { v.assign(p && n > 0 ? p : (int *)0, p && n > 0 ? p + n : (int *)0); };
    take(r.ih, t->internalHeader, t->internalHeaderNumber); take(r.h2, t->header2, t->header2Number);
    take(r.uh, t->userHeader, t->userHeaderNumber); take(r.v1, t->values1, t->values1Number);
    take(r.v2, t->values2, t->values2Number); take(r.v3, t->values3, t->values3Number);
    r.nval = t->numberValues; r.lval = t->logicalNumberValues;
  }
  zstructFree(t);
  return st;
}
inline std::string ivDiff(const char *n, const IV &want, const IV &got) {
  if (want == got) return "";
  if (want.size() != got.size()) return fmt("%s: length %zu, expected %zu", n, got.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) if (want[i] != got[i]) return fmt("%s[%zu] = %d, expected %d", n, i, got[i], want[i]);
  return "";
}
inline std::string recDiff(const RawRec &w, const RawRec &g) {
  std::string s;
  if (w.type != g.type) s += fmt("type %d, expected %d; ", g.type, w.type);
  s += ivDiff("internalHeader", w.ih, g.ih); s += ivDiff(" header2", w.h2, g.h2);
  if (g.uh != w.uh) { // an odd-length user header may gain one word of blanks
    IV u = g.uh; bool ok = false;
    if (u.size() == w.uh.size() + 1 && (w.uh.size() & 1)) { u.pop_back(); ok = u == w.uh; }
    if (!ok) s += ivDiff(" userHeader", w.uh, g.uh);
  }
  s += ivDiff(" values1", w.v1, g.v1); s += ivDiff(" values2", w.v2, g.v2); s += ivDiff(" values3", w.v3, g.v3);
  if (w.nval != g.nval) s += fmt(" numberValues %d, expected %d", g.nval, w.nval);
  int wl = w.lval > 0 ? w.lval : w.nval;
  if (wl != g.lval) s += fmt(" logicalNumber %d, expected %d", g.lval, wl);
  return s;
}

// Pathname pool: parts from a small alphabet so that collisions of the table
// hash and of the full hash ("AZ" and "B;" have the same one) are common.
inline std::string genPart(Case &c, int maxLen) {
  static const std::vector<std::string> bits = {"A", "AZ", "B;", "BY", "CX", "b;", "az", "x", "Y Z", "Q9", "_", "0"};
  std::string p; int n = (int)c.s.draw(4);
  for (int i = 0; i < n; i++) p += c.s.pick(bits);
  if (c.s.chance(6)) p += c.s.text(c.s.range(1, maxLen), "ABCxyz 019-.");
  if ((int)p.size() > maxLen) p.resize(maxLen);
  // parts keep no leading/trailing blanks
  while (!p.empty() && p.back() == ' ') p.pop_back();
  while (!p.empty() && p[0] == ' ') p.erase(0, 1);
  return p;
}
inline std::string genPath(Case &c, int maxLen = 60) {
  std::string p = "/"; for (int i = 0; i < 6; i++) { std::string q = i == 1 || i == 2 || c.s.chance(35) ? genPart(c, maxLen) : ""; if (i == 1 && q.empty()) q = "B"; p += q + "/"; }
  return p;
}
inline std::string recase(Case &c, std::string p) {
  int k = (int)c.s.draw(4); if (k == 0) return p;
  for (size_t i = 0; i < p.size(); i++) { bool lo = k == 1 ? true : k == 2 ? false : ((i * 7 + p.size()) % 3 == 0); p[i] = lo ? tolower(p[i]) : toupper(p[i]); }
  return p;
}
inline void genConfig(Case &c, int &hash, int &bin) {
  static const std::vector<std::pair<int, int>> cfg = {{0, 0}, {8, 100}, {2, 100}, {3, 66}, {16, 200}, {64, 80}, {97, 400}};
  auto p = c.s.pick(cfg); hash = p.first; bin = p.second;
}
