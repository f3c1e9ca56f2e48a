// C17: an operation is stopped after each of its file writes, or one of its
// writes fails; the reopened file is compared with full snapshots taken before
// and after the undisturbed operation.
#include "mix.hpp"
#include "wrap.hpp"
#include <unistd.h>
#include <functional>
namespace {
typedef std::string S;
S slurp(const S &f) { S s; FILE *p = fopen(f.c_str(), "rb"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
void spill(const S &f, const S &s) { FILE *p = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), p); fclose(p); }
void applyW(S &s, const WriteLog::W &w) { size_t e = (size_t)w.off + w.bytes.size(); if (s.size() < e) s.resize(e); memcpy(&s[w.off], w.bytes.data(), w.bytes.size()); }
struct Op { S text; std::function<int(Case &, Dss &)> run; std::set<S> named; int kind; };
// the operation under test, drawn once, and run any number of times with the same choices
struct Plan { int op, kind; S path, to, desc; uint32_t seed; };
// Tries every record: the ones not touched must be as before; a touched one is absent, old, new, torn or unreadable.
struct Outcome { int absent = 0, old_ = 0, new_ = 0, torn = 0, error = 0; };
S look(Case &c, Dss &d, const Snap &s0, const Snap &s1, const std::set<S> &T, Outcome &o, const std::set<S> &foreign, const Snap *extra) {
  zStructCatalog *cat = zstructCatalogNew(); int n = zcatalog(d.ifltab, 0, cat, 0); if (n < 0) { zstructFree(cat); return fmt("zcatalog gives %d", n); }
  std::map<S, int> listed; for (int i = 0; i < cat->numberPathnames; i++) listed[up(cat->pathnameList[i])]++; zstructFree(cat); S err;
  for (auto &e : s0) if (!T.count(e.first)) {
    RawRec r; int st = rawRead(d, e.second.name, r); if (st) return fmt("\"%s\", which was not being written, gives %d when read", e.second.name.c_str(), st);
    S x = recDiff(e.second.r, r); if (!x.empty()) return fmt("\"%s\", which was not being written, has changed:%s", e.second.name.c_str(), x.c_str());
    auto it = listed.find(e.first); if (it == listed.end()) return fmt("\"%s\", which was not being written, is not in the catalogue", e.second.name.c_str()); if (it->second != 1) return fmt("\"%s\" is in the catalogue %d times", e.second.name.c_str(), it->second);
  }
  int torn = 0; for (auto &e : listed) if (!s0.count(e.first) && !s1.count(e.first) && !T.count(e.first) && !(extra && extra->count(e.first))) {
    // a bin of which only a first part could be written can list one name that does not exist
    bool cut = false; if (gWriteLog.failKind == 1 && !torn++) { RawRec r; cut = rawRead(d, e.first, r) != 0; }
    if (!cut) return fmt("\"%s\", which was never stored, is in the catalogue", e.first.c_str()); }
  for (auto &t : T) {
    int chk = zcheck(d.ifltab, t.c_str()); if (chk == STATUS_RECORD_NOT_FOUND) { o.absent++; RawRec r; int st = rawRead(d, t, r); if (st == 0) return fmt("\"%s\" is not found but can be read", t.c_str()); continue; }
    RawRec r; int st = rawRead(d, t, r); if (st) { o.error++; continue; }
    auto a = s0.find(t), b = s1.find(t); bool isOld = a != s0.end() && recDiff(a->second.r, r).empty(), isNew = b != s1.end() && recDiff(b->second.r, r).empty();
    if (isNew) o.new_++; else if (isOld) o.old_++; else { o.torn++;
      for (auto &x : s0) if (!T.count(x.first) && recDiff(x.second.r, r).empty() && (r.v1.size() + r.v2.size() + r.v3.size()) > 1) return fmt("\"%s\" reads as the record \"%s\"", t.c_str(), x.second.name.c_str());
      if (extra) for (auto &x : *extra) if (recDiff(x.second.r, r).empty()) return fmt("\"%s\" reads as the record \"%s\" stored later", t.c_str(), x.second.name.c_str()); }
  }
  if (extra) for (auto &x : *extra) if (!listed.count(x.first)) return fmt("\"%s\", stored later, is not in the catalogue", x.second.name.c_str());
  return err;
}
// each write of the operation fails once
void faults(Case &c, const std::vector<WriteLog::W> &W, const S &f, const S &base, int access, int reclaim, size_t nOp, const S &what, const Snap &s0, const Snap &s1, const std::set<S> &T, std::function<int(Dss &)> run) {
  auto &g = c.s; int kind = (int)g.pick({0, 1, 2}); bool same = g.chance(50); size_t salt = g.draw(1000); RawRec later = genRec(c, 60, 300); if (later.v1.empty()) later.v1.assign(2, 7); uint64_t ev = 0; int st; long long head = 800; for (auto &w : W) if (!w.off) head = (long long)w.bytes.size(); const char *kn = kind == 0 ? "fails" : kind == 1 ? "is short" : "and all later ones fail"; c.label(kind == 0 ? "fault:error" : kind == 1 ? "fault:short" : "fault:disk full");
  for (size_t k = 0; k < nOp; k++) {
    if (k > 40 && k + 3 < nOp && k % 7) continue; spill(f, base); Dss d; if (d.openFile(f, access)) c.fail("cannot open the file"); if (reclaim > 1) zsetFile(d.ifltab, "reclaim", "", reclaim);
    gWriteLog.start(f.c_str()); gWriteLog.failAt = (int)k; gWriteLog.failKind = kind; c.evals(++ev); st = run(d); int failed = gWriteLog.failed; if (kind != 2 || (k + salt) % 2) gWriteLog.stop();
    S w = fmt("%s, write %zu of %zu %s", what.c_str(), k + 1, nOp, kn); bool pid = W[k].off >= head && W[k].off + (long long)W[k].bytes.size() <= head + 78 * 8; // process numbers are kept for information only
    if (failed && st == 0 && !(pid && failed == 1)) c.fail("%s: the operation reported success (%zu bytes at %lld, %d failed)", w.c_str(), W[k].bytes.size(), W[k].off, failed);
    Snap ex; std::set<S> may;
    if (same && kind != 2) for (size_t j = 0; j < 1 + salt % 3; j++) { S q = fmt("/Later/record/%d////", (int)((k * 5 + j + salt) % 23)); RawRec l = later; l.v1[0] = (int)(k * 10 + j); st = rawWrite(d, q, l); if (st) { may.insert(up(q)); ex.erase(up(q)); c.label("handle refuses further stores"); } else { SnapRec sr; sr.name = q; sr.r = l; ex[up(q)] = sr; c.label("handle goes on"); } }
    d.close(); gWriteLog.stop(); if ((st = d.openFile(f))) c.fail("%s: the file cannot be opened again, status %d", w.c_str(), st);
    Outcome o; std::set<S> TT = T; for (auto &q : may) TT.insert(q); S x = look(c, d, s0, s1, TT, o, may, &ex); if (!x.empty()) c.fail("%s%s: %s", w.c_str(), ex.empty() ? "" : ", further records stored by the same handle", x.c_str());
    auto later_ = [&](const char *when) { for (auto &q : ex) { RawRec r; st = rawRead(d, q.second.name, r); if (st) c.fail("%s, %s: \"%s\" reads with %d", w.c_str(), when, q.second.name.c_str(), st); S y = recDiff(q.second.r, r); if (!y.empty()) c.fail("%s, %s: \"%s\" differs: %s", w.c_str(), when, q.second.name.c_str(), y.c_str()); } };
    later_("stored by the same handle");
    for (size_t j = 0; j < 1 + salt % 2; j++) { S q = fmt("/Later/still/%d////", (int)((k * 5 + j + salt) % 23)); RawRec l = later; l.v1[0] = (int)(k * 10 + j); st = rawWrite(d, q, l); if (st) c.fail("%s: a record stored after reopening gives %d", w.c_str(), st); SnapRec sr; sr.name = q; sr.r = l; ex[up(q)] = sr; }
    later_("stored later"); x = look(c, d, s0, s1, TT, o, may, &ex); if (!x.empty()) c.fail("%s, then records stored after reopening: %s", w.c_str(), x.c_str()); d.close();
  }
}
void runC17(Case &c) {
  quiet(); gWriteLog.failKind = 0; auto &g = c.s; int hash, bin; genConfig(c, hash, bin); S f = c.path("t.dss"); Dss d; if (d.openFile(f, 0, hash, bin)) c.fail("cannot create a file");
  int reclaim = (int)g.pick({1, 1, 1, 2, 3}); mixPopulate(c, d, (int)g.range(1, c.tier ? 40 : 20), 2, g.chance(50), reclaim); Snap s0 = snapshot(c, d, "before"); S undel; if (reclaim == 1 && g.chance(8)) for (auto &e : s0) if (!e.second.alias && g.chance(50) && zdelete(d.ifltab, e.second.name.c_str()) == 0) { undel = e.second.name; s0 = snapshot(c, d, "before"); break; } d.close(); S base = slurp(f);
  int access = (int)g.pick({0, 0, 2, 3}); if (d.openFile(f, access)) c.fail("cannot open the file again"); if (reclaim > 1) zsetFile(d.ifltab, "reclaim", "", reclaim); S b0 = slurp(f);
  // the operation
  S what; int st = 0, op = !undel.empty() ? 9 : s0.empty() ? 0 : (int)g.weighted({40, 30, 15, 8, 7, 6, 6, 5, 5}); auto any = [&]() { auto it = s0.begin(); std::advance(it, g.draw((uint32_t)s0.size())); return it; };
  auto run = [&](Dss &d) -> int {
    if (op == 0) { int k = (int)g.draw(MK_N); S p = mixPath(k, (int)g.draw(2), (int)g.draw(3)), desc; int st = mixStore(c, d, k, p, desc); what = fmt("store %s \"%s\" %s", mixName(k), p.c_str(), desc.c_str()); return st; }
    if (op == 9) { what = fmt("undelete \"%s\"", undel.c_str()); return zundelete(d.ifltab, undel.c_str()); }
    auto it = any(); S p = it->second.name;
    if (op == 1) { // over-write a record, same sizes or others
      RawRec r = it->second.r; int how = (int)g.draw(3); if (how == 0) for (auto &w : r.v1) w ^= 1; else if (how == 1) genIV(c, r.v3, (i64)r.v3.size()); else { i64 m = (i64)g.size(800); genIV(c, r.v2, m); }
      if (it->second.alias) p = s0[it->second.primary].name; what = fmt("over-write \"%s\" (%s)", p.c_str(), how == 0 ? "first data array" : how == 1 ? "third data array" : "second data array of another size"); return rawWrite(d, p, r); }
    if (op == 2) { what = fmt("delete \"%s\"", p.c_str()); return zdelete(d.ifltab, p.c_str()); }
    if (op == 3) { what = fmt("rename \"%s\"", p.c_str()); return zrename(d.ifltab, p.c_str(), "/Renamed/to/x////"); }
    if (op == 5) { what = fmt("add an alias of \"%s\"", p.c_str()); return zaliasAdd(d.ifltab, p.c_str(), "/Another/name/of////"); }
    if (op == 6) { // an alias is removed, or all of a record
      for (auto &e : s0) if (e.second.alias && g.chance(60)) { p = e.second.name; break; } bool all = g.chance(30); what = fmt("remove %s\"%s\"", all ? "every alias of " : "the alias ", p.c_str()); return all ? zaliasRemoveAll(d.ifltab, p.c_str()) : zaliasRemove(d.ifltab, p.c_str()); }
    if (op == 7) { // a location, new or over an old one
      what = fmt("store the location of \"%s\"", p.c_str()); zStructLocation *l = zstructLocationNew(p.c_str()); l->xOrdinate = 5 + (double)g.draw(9); l->yOrdinate = 6; l->coordinateSystem = 2; S sup = g.text(g.draw(60), "abc:;9"); l->supplemental = sup.empty() ? 0 : &sup[0]; int st = zlocationStore(d.ifltab, l, 1); l->supplemental = 0; zstructFree(l); return st; }
    if (op == 8) { what = fmt("copy \"%s\"", p.c_str()); return zcopyRecord(d.ifltab, d.ifltab, p.c_str(), "/Copy/to/x////"); }
    what = fmt("duplicate \"%s\"", p.c_str()); return zduplicateRecord(d.ifltab, p.c_str(), "/Dup/to/x////");
  };
  std::vector<uint64_t> choices; g.capture(&choices); gWriteLog.start(f.c_str()); gWriteLog.record = true; st = run(d); g.capture(nullptr);
  size_t nOp = gWriteLog.w.size(); Snap s1; 
  if (st) { d.close(); gWriteLog.stop(); c.note("%s gave %d", what.c_str(), st); return; }
  d.close(); auto W = gWriteLog.w; gWriteLog.stop(); if (d.openFile(f)) c.fail("cannot reopen after %s", what.c_str()); s1 = snapshot(c, d, "after the undisturbed operation"); d.close();
  c.note("access %d, %s: %zu writes, then %zu on closing", access, what.c_str(), nOp, W.size() - nOp); c.label(op == 0 ? "store" : op == 1 ? "over-write" : op == 2 ? "delete" : op == 3 ? "rename" : op == 4 ? "duplicate" : op == 5 ? "alias added" : op == 6 ? "alias removed" : op == 7 ? "location" : op == 8 ? "copy" : "undelete");
  std::set<S> T; for (auto &e : s0) { auto it = s1.find(e.first); if (it == s1.end() || !snapDiff(e.second, it->second).empty()) T.insert(e.first); } for (auto &e : s1) if (!s0.count(e.first)) T.insert(e.first);
  for (auto *m : {&s0, &s1}) for (auto &e : *m) if (e.second.alias && T.count(e.second.primary)) T.insert(e.first); // an alias of the record being written is that record
  if (nOp > 1 && s0.size() > 1) c.nontrivial();
  if (g.chance(40)) { faults(c, W, f, base, access, reclaim, nOp, what, s0, s1, T, [&](Dss &x) { g.again(&choices); int r = run(x); g.again(nullptr); return r; }); return; }
  // stop after each write
  S img = b0; int again = (int)g.pick({0, 0, 2, 4}); bool follow = g.chance(70); size_t moreSeed = g.draw(1000); RawRec later; if (follow) { later = genRec(c, 100, 800); if (later.v1.size() < 2) later.v1.assign(2, 7); }
  uint64_t ev = 0; for (size_t k = 0; k <= W.size(); k++) {
    if (k) applyW(img, W[k - 1]); if (k > 60 && k + 3 < W.size() && k % 7) continue; S h = c.path("crash.dss"); spill(h, img); Dss e; st = e.openFile(h, again); if (st) c.fail("%s, stopped after write %zu of %zu: the file cannot be opened, status %d", what.c_str(), k, nOp, st);
    Outcome o; std::set<S> none; c.evals(++ev); const std::set<S> &TT = k >= nOp ? none : T; S x = look(c, e, k >= nOp ? s1 : s0, s1, TT, o, none, nullptr); if (!x.empty()) c.fail("%s, stopped after write %zu of %zu: %s", what.c_str(), k, nOp, x.c_str());
    if (o.torn) c.label("interrupted:mixed"); if (o.error) c.label("interrupted:unreadable"); if (o.old_) c.label("interrupted:old"); if (o.new_) c.label("interrupted:new"); if (o.absent) c.label("interrupted:absent");
    if (follow) { // the file goes on being used
      Snap ex; int m = 1 + (int)((k + moreSeed) % 4); for (int j = 0; j < m; j++) {
        S q = fmt("/Later/record/%d////", (int)((k * 7 + j + moreSeed) % 23)); if (ex.count(up(q))) continue; RawRec l = later; l.v1[0] = (int)(k * 10 + j); if (j & 1) l.v2.clear();
        st = rawWrite(e, q, l); if (st) c.fail("%s, stopped after write %zu of %zu: a record stored after reopening gives %d", what.c_str(), k, nOp, st); SnapRec sr; sr.name = q; sr.r = l; ex[up(q)] = sr; }
      if ((k + moreSeed) % 3 == 0) { e.close(); if (e.openFile(h)) c.fail("cannot reopen again"); }
      for (auto &q : ex) { RawRec r; st = rawRead(e, q.second.name, r); if (st) c.fail("%s, stopped after write %zu of %zu: \"%s\" stored after reopening reads with %d", what.c_str(), k, nOp, q.second.name.c_str(), st); S y = recDiff(q.second.r, r); if (!y.empty()) c.fail("%s, stopped after write %zu of %zu: \"%s\" stored after reopening differs: %s", what.c_str(), k, nOp, q.second.name.c_str(), y.c_str()); }
      x = look(c, e, k >= nOp ? s1 : s0, s1, TT, o, none, &ex); if (!x.empty()) c.fail("%s, stopped after write %zu of %zu, then %zu records stored: %s", what.c_str(), k, nOp, ex.size(), x.c_str());
    }
    e.close(); unlink(h.c_str());
  }
}
eng::Reg r({"C17", "the operation made two or more writes to a file holding two or more records", runC17, 10000, 150000, "exploration", {"a write to the file is atomic and writes reach the disk in the order issued"}});
}
