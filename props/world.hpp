// Model-based history driver at the record level: a DSS file next to a map.
#pragma once
#include "rawstore.hpp"
#include <set>

extern "C" int zundeleteAll(long long *ifltab);

struct World {
  Case &c; Dss d; std::string file; int access = 0;
  std::map<std::string, RawRec> live;
  std::map<std::string, std::vector<RawRec>> dead; // all deleted generations per path, latest last
  std::set<std::string> reused;                    // directory entry of the deleted path may have been re-used
  std::vector<std::string> paths;
  bool reclaim = false;                            // reclamation is on
  std::set<std::string> fragile;                   // deleted while (or before) reclamation was on: undelete carries no promise
  bool recycled = false;
  bool grew = false, deleted = false, reopened = false, renamed = false, chained = false;
  std::vector<int> types = {300, 90, 450, 600, 310, 205};
  int maxValues = 300;
  World(Case &cc) : c(cc) {}

  void begin(int reclaimLevel = 0) {
    quiet();
    int hash, bin; genConfig(c, hash, bin);
    file = c.path("t.dss");
    access = c.s.chance(20) ? 2 : 0;
    if (c.s.chance(25)) zset("detune", "", 1);
    int st = d.openFile(file, access, hash, bin);
    if (st) c.fail("open new file returned %d", st);
    if (reclaimLevel) zsetFile(d.ifltab, "reclaim", "", reclaimLevel);
    level = reclaimLevel; reclaim = level > 1;
    c.note("open hash %d bin %d access %d reclaim %d", hash, bin, access, reclaimLevel);
  }
  int level = 0;
  void addPath(const std::string &p) { for (auto &q : paths) if (up(q) == up(p)) return; paths.push_back(p); }
  // an entry that is newly created may re-use the directory entry of a deleted record
  void created(const std::string &p) { if (!live.count(up(p))) for (auto &e : dead) reused.insert(e.first); }
  void killed(const std::string &p) { auto it = live.find(up(p)); if (it == live.end()) return; dead[up(p)].push_back(it->second); reused.erase(up(p)); if (reclaim) fragile.insert(up(p)); live.erase(it); }
  void setReclaim(int lv) { zsetFile(d.ifltab, "reclaim", "", lv); level = lv; reclaim = lv > 1; c.note("reclaim %d", lv); if (reclaim) for (auto &e : dead) fragile.insert(e.first); }
  void checkPath(const std::string &p, const char *when) {
    RawRec g; auto it = live.find(up(p));
    int st = rawRead(d, p, g);
    if (it == live.end()) { if (st != STATUS_RECORD_NOT_FOUND) c.fail("%s: read of \"%s\", which does not exist, returned %d", when, p.c_str(), st); }
    else {
      if (st != 0) c.fail("%s: read of \"%s\" returned %d, record should exist", when, p.c_str(), st);
      std::string df = recDiff(it->second, g);
      if (!df.empty()) c.fail("%s: record \"%s\" differs: %s", when, p.c_str(), df.c_str());
    }
  }
  void checkAll(const char *when) { for (auto &p : paths) checkPath(p, when); }
  std::string somePath(bool fresh) {
    if (paths.empty() || (fresh && c.s.chance(45))) { std::string p = genPath(c); addPath(p); return p; }
    return recase(c, c.s.pick(paths));
  }
  void opWrite(const std::string &p, const RawRec &r, int extra) {
    auto it = live.find(up(p));
    c.note("write \"%s\" %s extra %d%s", p.c_str(), recStr(r).c_str(), extra, it != live.end() ? " (over)" : "");
    int st = rawWrite(d, p, r, extra);
    if (it != live.end() && it->second.type != r.type) { if (st == 0) c.fail("write of type %d over type %d was accepted", r.type, it->second.type); }
    else { if (st) c.fail("write of \"%s\" returned %d", p.c_str(), st);
      if (it != live.end() && r.v1.size() > it->second.v1.size()) grew = true;
      created(p); live[up(p)] = r; }
    checkPath(p, "after write");
  }
  void opWriteRandom() {
    std::string p = somePath(true); auto it = live.find(up(p));
    int type = it != live.end() && c.s.chance(95) ? it->second.type : c.s.pick(types);
    RawRec r = genRec(c, type, c.s.chance(5) ? 6000 : maxValues);
    opWrite(p, r, c.s.chance(15) ? (int)c.s.draw(500) : 0);
  }
  void opDelete(const std::string &p) {
    bool had = live.count(up(p)); c.note("delete \"%s\" (%s)", p.c_str(), had ? "live" : "absent");
    int st = zdelete(d.ifltab, p.c_str());
    if (had && st) c.fail("delete of existing \"%s\" returned %d", p.c_str(), st);
    if (!had && st == 0) c.fail("delete of absent \"%s\" returned 0", p.c_str());
    if (had) { killed(p); deleted = true; }
    checkPath(p, "after delete");
  }
  void opUndelete(const std::string &p) {
    bool had = live.count(up(p)), can = !had && dead.count(up(p)) && !dead[up(p)].empty();
    if (had) { c.note("undelete \"%s\" (live)", p.c_str()); int st = zundelete(d.ifltab, p.c_str()); if (st == 0) c.fail("undelete of the existing \"%s\" returned 0", p.c_str()); checkPath(p, "after refused undelete"); return; } bool frail = fragile.count(up(p)); // after reclamation the record may be gone, but what comes back is whole
    c.note("undelete \"%s\" (%s)", p.c_str(), can ? "deleted" : "absent");
    int st = zundelete(d.ifltab, p.c_str());
    if (!can) { if (st == 0) c.fail("undelete of never deleted \"%s\" returned 0", p.c_str()); checkPath(p, "after refused undelete"); return; }
    auto &gens = dead[up(p)]; bool sure = !frail && !reused.count(up(p));
    if (st) { if (sure) c.fail("undelete of \"%s\" returned %d", p.c_str(), st); checkPath(p, "after refused undelete"); return; }
    RawRec g; int rs = rawRead(d, p, g);
    if (rs) c.fail("read of undeleted \"%s\" returned %d", p.c_str(), rs);
    std::string df; int found = -1;
    for (int i = (int)gens.size() - 1; i >= 0; i--) { std::string x = recDiff(gens[i], g); if (x.empty()) { found = i; break; } if (df.empty()) df = x; if (sure) break; }
    if (found < 0) c.fail("undeleted \"%s\" differs from the deleted record: %s", p.c_str(), df.c_str());
    RawRec keep = gens[found];
    gens.erase(gens.begin() + found); live[up(p)] = keep;
    if (gens.empty()) dead.erase(up(p)); else reused.insert(up(p));
  }
  void opUndeleteAll() {
    int st = zundeleteAll(d.ifltab); c.note("undelete all gave %d", st); if (st < 0) c.fail("undeleting all records returned %d", st);
    std::vector<std::string> keys; for (auto &e : dead) if (!live.count(e.first) && !e.second.empty()) keys.push_back(e.first);
    for (auto &k : keys) {
      std::string p = k; for (auto &q : paths) if (up(q) == k) p = q;
      auto &gens = dead[k]; bool sure = !fragile.count(k) && !reused.count(k); RawRec g; int rs = rawRead(d, p, g);
      if (rs) { if (sure) c.fail("after undeleting all records, reading \"%s\" returned %d", p.c_str(), rs); continue; }
      std::string df; int found = -1; for (int i = (int)gens.size() - 1; i >= 0; i--) { std::string x = recDiff(gens[i], g); if (x.empty()) { found = i; break; } if (df.empty()) df = x; if (sure) break; }
      if (found < 0) c.fail("after undeleting all records, \"%s\" differs from the deleted record: %s", p.c_str(), df.c_str());
      RawRec keep = gens[found]; gens.erase(gens.begin() + found); live[k] = keep; if (gens.empty()) dead.erase(k); else reused.insert(k);
    }
  }
  void opRename(const std::string &p, const std::string &q) {
    if (up(p) == up(q)) return;
    if (!live.count(up(p))) { c.note("rename \"%s\" (absent) -> \"%s\"", p.c_str(), q.c_str()); int st = zrename(d.ifltab, p.c_str(), q.c_str()); if (st == 0) c.fail("rename of absent \"%s\" returned 0", p.c_str()); checkPath(p, "after refused rename"); checkPath(q, "after refused rename"); return; }
    c.note("rename \"%s\" -> \"%s\"%s", p.c_str(), q.c_str(), live.count(up(q)) ? " (exists)" : "");
    int st = zrename(d.ifltab, p.c_str(), q.c_str());
    if (st) c.fail("rename \"%s\" to \"%s\" returned %d", p.c_str(), q.c_str(), st);
    RawRec moved = live[up(p)];
    killed(q); live.erase(up(p));
    for (auto &e : dead) reused.insert(e.first);
    live[up(q)] = moved; renamed = true;
    checkPath(p, "after rename"); checkPath(q, "after rename");
  }
  void opDuplicate(const std::string &p, const std::string &q) {
    if (up(p) == up(q)) return;
    bool had = live.count(up(p)); if (had && live.count(up(q)) && live[up(p)].type != live[up(q)].type) return;
    c.note("duplicate \"%s\" -> \"%s\"%s", p.c_str(), q.c_str(), had ? "" : " (absent)");
    int st = zduplicateRecord(d.ifltab, p.c_str(), q.c_str());
    if (had) { if (st) c.fail("duplicate \"%s\" returned %d", p.c_str(), st); RawRec r = live[up(p)]; created(q); live[up(q)] = r; }
    else if (st == 0) c.fail("duplicate of absent record returned 0");
    checkPath(p, "after duplicate"); checkPath(q, "after duplicate");
  }
  void opReopen() {
    access = c.s.chance(25) ? 2 : 0; c.note("close/reopen access %d", access);
    int st = d.close(); if (st) c.fail("close returned %d", st);
    st = d.openFile(file, access); if (st) c.fail("reopen returned %d", st);
    if (level) zsetFile(d.ifltab, "reclaim", "", level);
    reopened = true; checkAll("after reopen");
  }
  void opCheck() {
    std::string p = somePath(true); c.note("check \"%s\"", p.c_str()); int st = zcheck(d.ifltab, p.c_str());
    bool had = live.count(up(p)); if (had != (st == STATUS_RECORD_FOUND)) c.fail("zcheck of %s \"%s\" returned %d", had ? "existing" : "absent", p.c_str(), st);
  }
  void burst() {
    int n = (int)c.s.range(5, 60); c.note("burst %d", n); chained = true;
    for (int i = 0; i < n; i++) { std::string p = fmt("/BURST/LOC%d/%c%c/%d//F/", i % 7, 'A' + i % 3, 'Z' - i % 3, i); RawRec r; r.type = live.count(up(p)) ? live[up(p)].type : 300; r.v1.assign(i % 5, i); r.nval = i % 5;
      int st = rawWrite(d, p, r); if (st) c.fail("write of \"%s\" returned %d", p.c_str(), st); live[up(p)] = r; addPath(p); }
  }
  // weights: write read delete undelete rename duplicate reopen check
  void step(const std::vector<int> &w = {40, 10, 12, 6, 8, 6, 6, 4}) {
    switch (c.s.weighted(w)) {
      case 0: opWriteRandom(); break;
      case 1: { std::string p = somePath(true); c.note("read \"%s\"", p.c_str()); checkPath(p, "read"); break; }
      case 2: opDelete(somePath(false)); break;
      case 3: if (c.s.chance(15)) opUndeleteAll(); else opUndelete(somePath(c.s.chance(25))); break;
      case 4: { std::string p = somePath(false), q = somePath(true); opRename(p, q); break; }
      case 5: { std::string p = somePath(false), q = somePath(true); opDuplicate(p, q); break; }
      case 6: opReopen(); break;
      case 7: opCheck(); break;
    }
  }
  void labels(int nops) {
    if (grew) c.label("grew"); if (deleted) c.label("deleted"); if (reopened) c.label("reopened"); if (renamed) c.label("renamed"); if (chained) c.label("chained");
    c.label("ops<=%d", nops <= 5 ? 5 : nops <= 20 ? 20 : 80);
  }
  // the live pathnames as the catalogue lists them, with counts and structure
  void checkStructure(const char *when) {
    int st;
    if ((st = zcheckLinks(d.ifltab))) c.fail("%s: zcheckLinks returned %d", when, st);
    if ((st = zcheckPathnames(d.ifltab))) c.fail("%s: zcheckPathnames returned %d", when, st);
    if ((st = zcheckPathnameBins(d.ifltab))) c.fail("%s: zcheckPathnameBins returned %d", when, st);
    if ((st = zcheckHashTable(d.ifltab))) c.fail("%s: zcheckHashTable returned %d", when, st);
    if ((st = zcheckFile(d.ifltab))) c.fail("%s: zcheckFile returned %d", when, st);
  }
  void checkCatalog(const char *when, int sorted) {
    zStructCatalog *cat = zstructCatalogNew();
    int n = zcatalog(d.ifltab, 0, cat, sorted);
    if (n < 0) c.fail("%s: zcatalog returned %d", when, n);
    if (n != cat->numberPathnames) c.fail("%s: zcatalog returned %d but lists %d", when, n, cat->numberPathnames);
    std::set<std::string> seen;
    for (int i = 0; i < cat->numberPathnames; i++) {
      std::string q = up(cat->pathnameList[i]); auto it = live.find(q);
      if (it == live.end()) c.fail("%s: catalogue lists \"%s\", which does not exist", when, cat->pathnameList[i]);
      if (!seen.insert(q).second) c.fail("%s: catalogue lists \"%s\" twice", when, cat->pathnameList[i]);
      if (cat->recordType[i] != it->second.type) c.fail("%s: catalogue type of \"%s\" is %d, expected %d", when, cat->pathnameList[i], cat->recordType[i], it->second.type);
    }
    if (seen.size() != live.size()) { std::string miss; for (auto &e : live) if (!seen.count(e.first)) { miss = e.first; break; } c.fail("%s: catalogue has %zu of %zu records, e.g. not \"%s\"", when, seen.size(), live.size(), miss.c_str()); }
    zstructFree(cat);
  }
  void checkCounts(const char *when) {
    long long n = zinquire(d.ifltab, "nrec");
    if (n != (long long)live.size()) c.fail("%s: record count is %lld, %zu records exist", when, n, live.size());
    long long dead = zinquire(d.ifltab, "dsiz"), size = zinquire(d.ifltab, "fsiz"), pct = zinquire(d.ifltab, "dead");
    if (dead < 0 || dead >= size || pct < 0 || pct > 100 || pct != dead * 100 / size) c.fail("%s: %lld words of dead space (%lld %%) in a file of %lld words", when, dead, pct, size);
    if (getenv("HECV_DEAD")) fprintf(stderr, "%s dead %lld of %lld\n", when, dead, size);
  }
};
