// C15: aliases - a model of records and their names next to the file.
#include "mix.hpp"
#include <set>
extern "C" int zaliasNumber(long long *ifltab, const char *pathname);
namespace {
typedef std::string S;
struct W15 {
  Case &c; Dss d; S f; std::map<S, RawRec> rec; std::map<S, S> alias; std::map<S, S> shown; std::vector<S> names; W15(Case &cc) : c(cc) {}
  S prim(const S &n) { S u = up(n); if (alias.count(u)) return alias[u]; return rec.count(u) ? u : S(); }
  int nAliases(const S &p) { int n = 0; for (auto &a : alias) n += a.second == p; return n; }
  S any() { return recase(c, c.s.pick(names)); }
  S anyLive() { std::vector<S> v; for (auto &r : rec) v.push_back(r.first); for (auto &a : alias) v.push_back(a.first); if (v.empty()) return any(); return recase(c, c.s.pick(v)); }
  void check(const S &n, const char *when) {
    S p = prim(n); RawRec g; int st = rawRead(d, n, g);
    if (p.empty()) { if (st != STATUS_RECORD_NOT_FOUND) c.fail("%s: reading \"%s\", which does not exist, gave %d", when, n.c_str(), st); if ((st = zcheck(d.ifltab, n.c_str())) != STATUS_RECORD_NOT_FOUND) c.fail("%s: zcheck of \"%s\", which does not exist, gave %d", when, n.c_str(), st); return; }
    const char *k = alias.count(up(n)) ? "alias" : "record"; if (st) c.fail("%s: reading %s \"%s\" of \"%s\" gave %d", when, k, n.c_str(), p.c_str(), st);
    S x = recDiff(rec[p], g); if (!x.empty()) c.fail("%s: read by %s \"%s\", record \"%s\" differs: %s", when, k, n.c_str(), p.c_str(), x.c_str());
    if ((st = zcheck(d.ifltab, n.c_str())) != STATUS_RECORD_FOUND) c.fail("%s: zcheck of %s \"%s\" gave %d", when, k, n.c_str(), st); if ((st = zdataType(d.ifltab, n.c_str())) != rec[p].type) c.fail("%s: zdataType of %s \"%s\" gave %d", when, k, n.c_str(), st);
    if ((st = zaliasNumber(d.ifltab, n.c_str())) != nAliases(p)) c.fail("%s: zaliasNumber of %s \"%s\" gave %d, the record has %d", when, k, n.c_str(), st, nAliases(p));
  }
  void primary(const S &n) { S p = prim(n); size_t len = c.s.chance(80) ? 400 : p.size() + 1; std::vector<char> b(len, 'x'); int st = zaliasGetPrimary(d.ifltab, n.c_str(), b.data(), len); if (p.empty()) { if (st == 0) c.fail("zaliasGetPrimary of missing \"%s\" gave 0", n.c_str()); return; } if (st) c.fail("zaliasGetPrimary of \"%s\" gave %d", n.c_str(), st); if (!memchr(b.data(), 0, len)) c.fail("zaliasGetPrimary of \"%s\" is not terminated", n.c_str()); if (up(b.data()) != p) c.fail("zaliasGetPrimary of \"%s\" is \"%s\", expected \"%s\"", n.c_str(), b.data(), p.c_str()); }
  void list(const S &n) {
    S p = prim(n); char *l = 0; int len = -1; int k = zaliasList(d.ifltab, n.c_str(), &l, &len); if (p.empty()) { if (k >= 0) c.fail("zaliasList of missing \"%s\" gave %d", n.c_str(), k); return; }
    std::vector<S> v; int pos = 0; for (int i = 0; i < k; i++) { if (pos >= len) c.fail("zaliasList of \"%s\" has %d names in %d characters", n.c_str(), k, len); v.push_back(S(l + pos)); pos += (int)v.back().size() + 1; } free(l);
    if (k != 1 + nAliases(p)) c.fail("zaliasList of \"%s\" has %d names, expected the primary and %d aliases", n.c_str(), k, nAliases(p)); if (pos != len) c.fail("zaliasList of \"%s\" is %d characters long, reported %d", n.c_str(), pos, len);
    if (up(v[0]) != p) c.fail("zaliasList of \"%s\" starts with \"%s\", primary is \"%s\"", n.c_str(), v[0].c_str(), p.c_str()); std::set<S> got; for (size_t i = 1; i < v.size(); i++) { S u = up(v[i]); if (!alias.count(u) || alias[u] != p) c.fail("zaliasList of \"%s\" lists \"%s\", which is no alias of it", n.c_str(), v[i].c_str()); if (!got.insert(u).second) c.fail("zaliasList of \"%s\" lists \"%s\" twice", n.c_str(), v[i].c_str()); }
  }
  void catalog(const char *when) {
    zStructCatalog *cat = zstructCatalogNew(); int want = (int)c.s.draw(3); cat->statusWanted = want; int n = zcatalog(d.ifltab, 0, cat, 0); if (n < 0) c.fail("%s: zcatalog gave %d", when, n); std::set<S> got; for (int i = 0; i < cat->numberPathnames; i++) { S u = up(cat->pathnameList[i]); if (!got.insert(u).second) c.fail("%s: catalogue (status %d) lists \"%s\" twice", when, want, u.c_str()); }
    zstructFree(cat); std::set<S> exp; if (want != REC_STATUS_ALIAS) for (auto &r : rec) exp.insert(r.first); if (want != REC_STATUS_PRIMARY) for (auto &a : alias) exp.insert(a.first); for (auto &e : exp) if (!got.count(e)) c.fail("%s: catalogue (status %d) lacks \"%s\"", when, want, e.c_str()); for (auto &e : got) if (!exp.count(e)) c.fail("%s: catalogue (status %d) lists \"%s\"", when, want, e.c_str());
    long long np = zinquire(d.ifltab, "npri"), na = zinquire(d.ifltab, "nali"); if (np != (long long)rec.size() || na != (long long)alias.size()) c.fail("%s: the file counts %lld records and %lld aliases, %zu and %zu exist", when, np, na, rec.size(), alias.size());
  }
  void all(const char *when) { for (auto &n : names) check(n, when); catalog(when); mixStructure(c, d, when); }
  void drop(const S &p) { rec.erase(p); for (auto i = alias.begin(); i != alias.end();) if (i->second == p) i = alias.erase(i); else ++i; }
};
void runC15(Case &c) {
  quiet(); auto &g = c.s; W15 w(c); int hash, bin; genConfig(c, hash, bin); w.f = c.path("a.dss"); int multi = g.chance(20) ? 2 : 0; if (w.d.openFile(w.f, multi, hash, bin)) c.fail("cannot create a file"); bool detune = g.chance(20); if (detune) zset("detune", "", 1); c.note("access %d, hash size %d, bin size %d%s", multi, hash, bin, detune ? ", every path the same hash" : "");
  int np = (int)g.range(3, 9); for (int i = 0; i < np; i++) { S p = genPath(c); bool dup = false; for (auto &q : w.names) dup |= up(q) == up(p); if (!dup) w.names.push_back(p); }
  int n = (int)g.range(4, c.tier ? 60 : 35); int maxAl = 0; bool acted = false;
  for (int i = 0; i < n; i++) { switch (g.weighted({22, 25, 10, 6, 6, 6, 8, 6, 8, 5, 4})) {
    case 0: { S p = w.any(); S q = w.prim(p); RawRec r = genRec(c, 300, 200); int alloc = g.chance(15) ? (int)g.draw(300) : 0; c.note("write \"%s\"%s %s space %d", p.c_str(), q.empty() ? "" : w.alias.count(up(p)) ? " (alias)" : " (over)", recStr(r).c_str(), alloc); int st = rawWrite(w.d, p, r, alloc); if (st) c.fail("writing \"%s\" gave %d", p.c_str(), st); if (q.empty()) q = up(p); else if (w.alias.count(up(p))) { acted = true; c.label("write-by-alias"); } w.rec[q] = r; break; }
    case 1: { S p = w.anyLive(), a = w.any(); S q = w.prim(p); bool ok = !q.empty() && w.prim(a).empty(); c.note("add alias \"%s\" to \"%s\"%s", a.c_str(), p.c_str(), ok ? "" : " (to be refused)"); int st = zaliasAdd(w.d.ifltab, p.c_str(), a.c_str()); if (ok ? st != 0 : st == 0) c.fail("adding alias \"%s\" to \"%s\" gave %d, %s", a.c_str(), p.c_str(), st, ok ? "expected success" : q.empty() ? "the record does not exist" : "the name exists"); if (ok) { w.alias[up(a)] = q; c.label(w.alias.count(up(p)) ? "add-to-alias" : "add"); } else c.label("refused-add"); w.check(a, "after adding an alias"); w.check(p, "after adding an alias"); break; }
    case 2: { S a = w.anyLive(); bool is = w.alias.count(up(a)); S q = w.prim(a); c.note("remove alias \"%s\"%s", a.c_str(), is ? "" : " (no alias)"); int st = zaliasRemove(w.d.ifltab, a.c_str()); if (is ? st != 0 : st == 0) c.fail("removing %s \"%s\" gave %d", is ? "alias" : "what is no alias,", a.c_str(), st); if (is) { w.alias.erase(up(a)); c.label("remove"); } w.check(a, "after removing an alias"); if (!q.empty()) w.check(q, "after removing an alias"); break; }
    case 3: { S p = w.anyLive(); S q = w.prim(p); int k = q.empty() ? 0 : w.nAliases(q); c.note("remove all aliases of \"%s\" (%d)", p.c_str(), k); int st = zaliasRemoveAll(w.d.ifltab, p.c_str()); if (k ? st != k : st > 0) c.fail("removing all aliases of \"%s\" gave %d, it has %d", p.c_str(), st, k); if (k) { for (auto i = w.alias.begin(); i != w.alias.end();) if (i->second == q) i = w.alias.erase(i); else ++i; c.label("remove-all"); } break; }
    case 4: { S p = g.chance(80) ? w.anyLive() : w.any(); w.primary(p); break; }
    case 5: { S p = g.chance(80) ? w.anyLive() : w.any(); w.list(p); break; }
    case 6: { S p = w.anyLive(); w.check(p, "read"); break; }
    case 7: { S p = w.anyLive(); S q = w.prim(p); c.note("delete \"%s\"%s", p.c_str(), w.alias.count(up(p)) ? " (alias)" : ""); int st = zdelete(w.d.ifltab, p.c_str()); if (q.empty() ? st == 0 : st != 0) c.fail("deleting \"%s\" gave %d", p.c_str(), st); if (!q.empty()) { if (w.nAliases(q)) c.label("delete-aliased"); w.drop(q); } break; }
    case 8: { S p = w.anyLive(), a = w.any(); S q = w.prim(p); if (q.empty() || up(a) == up(p)) break; bool isA = w.alias.count(up(p)), toA = w.alias.count(up(a)); c.note("rename \"%s\"%s to \"%s\"%s", p.c_str(), isA ? " (alias)" : "", a.c_str(), toA ? " (alias)" : w.rec.count(up(a)) ? " (exists)" : ""); int st = zrename(w.d.ifltab, p.c_str(), a.c_str());
      if (isA || toA) { if (st == 0) c.fail("renaming \"%s\"%s to \"%s\"%s was not refused", p.c_str(), isA ? ", an alias," : "", a.c_str(), toA ? ", which is an alias" : ""); break; }
      if (st) c.fail("renaming \"%s\" to \"%s\" gave %d", p.c_str(), a.c_str(), st); RawRec r = w.rec[q]; w.drop(up(a)); w.rec.erase(q); w.rec[up(a)] = r; for (auto &x : w.alias) if (x.second == q) x.second = up(a), c.label("rename-aliased"); break; }
    case 9: { c.note("close and reopen"); w.d.close(); int st = w.d.openFile(w.f, g.chance(20) ? 2 : 0); if (st) c.fail("reopening gave %d", st); break; }
    case 10: { c.note("squeeze"); w.d.close(); int st = zsqueeze(w.f.c_str()); if (st) c.fail("zsqueeze gave %d", st); if ((st = w.d.openFile(w.f))) c.fail("reopening gave %d", st); if (!w.alias.empty()) c.label("squeeze"); break; }
    }
    maxAl = std::max(maxAl, (int)w.alias.size()); c.evals(1); if (g.chance(25)) w.all("during"); }
  w.all("at the end"); for (auto &p : w.names) { w.primary(p); w.list(p); } if (g.chance(50)) { w.d.close(); if (w.d.openFile(w.f, 1)) c.fail("reopening read-only failed"); w.all("reopened"); } w.d.close(); if (maxAl > 1 || acted) c.nontrivial();
}
eng::Reg r({"C15", "two or more aliases existed at a time, or a record was written through an alias", runC15, 8000, 200000, "exploration", {"deleting through an alias deletes the record and all its names, as documented in zdelete", "renaming an alias, or a record to the name of an alias, is expected to be refused"}});
}
