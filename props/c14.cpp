// C14: squeeze, copy of a file, copy and duplicate of a record, over files with
// every kind of record, judged by full snapshots of both files.
#include "mix.hpp"
#include <unistd.h>
namespace {
typedef std::string S;
S cfgNote;
void structure(Case &c, Dss &d, const char *when) { mixStructure(c, d, when); }
void counts(Case &c, Dss &d, const Snap &s, const char *when) { long long n = zinquire(d.ifltab, "nrec"), p = zinquire(d.ifltab, "npri"), a = zinquire(d.ifltab, "nali"); if (n != (long long)s.size()) c.fail("%s: the file counts %lld records (%lld primary, %lld aliases), %zu exist", when, n, p, a, s.size()); }
void same(Case &c, const Snap &want, const Snap &got, const char *what) { S x = snapsDiff(want, got); if (!x.empty()) c.fail("%s: %s", what, x.c_str()); }
void writeTimes(Case &c, const Snap &want, const Snap &got, const char *what) { for (auto &e : want) { auto &g = got.at(e.first); if (!e.second.alias && e.second.wrote != g.wrote) c.fail("%s: last write time of \"%s\" went from %lld to %lld", what, e.second.name.c_str(), e.second.wrote, g.wrote); } }
// An alias of the target follows the record it is an alias of
void follow(Snap &want, const Snap &old) { for (auto &e : old) if (e.second.alias && want.count(e.second.primary)) { const SnapRec &p = want[e.second.primary]; SnapRec x = e.second; x.r = p.r; x.type = p.type; x.first = p.first; x.last = p.last; want[e.first] = x; } }
void runC14(Case &c) {
  quiet(); auto &g = c.s; int hash, bin; genConfig(c, hash, bin); S f = c.path("t.dss"); Dss d; if (d.openFile(f, 0, hash, bin)) c.fail("cannot create a file");
  mixPopulate(c, d, (int)g.range(1, c.tier ? 40 : 22), 2, true, (int)g.pick({1, 1, 2, 3})); Snap s0 = snapshot(c, d, "before"); S kinds;
  int rounds = (int)g.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    // a record whose info block straddles the pieces (of 4028 words) in which a file is scanned
    if (g.chance(15)) { long long at = zinquire(d.ifltab, "fsiz"), goal = 4028 - 3 + (long long)g.draw(5), info = 33; RawRec p; long long pad = ((goal - at - info) % 4028 + 4028) % 4028; p.v1.assign((size_t)pad * 2, 7); S one = fmt("/pad/pad/pad%d////", r), two = fmt("/pad/next/pad%d////", r);
      int st = rawWrite(d, one, p); RawRec q; q.v1.assign(4, 3); if (!st) st = rawWrite(d, two, q); if (st) c.fail("storing gave %d", st); c.note("pad of %lld words, \"%s\" follows", pad, two.c_str()); c.label("aligned-to-chunk"); s0 = snapshot(c, d, "padded"); }
    int op = (int)g.weighted({30, 25, 25, 20});
    if (op == 0) { // squeeze
      int how = (int)g.draw(3); c.note("squeeze %s", how == 0 ? "closed file" : how == 1 ? "by handle, in place" : "by handle, by rename"); c.label(how == 0 ? "squeeze" : how == 1 ? "squeeze-in-place" : "squeeze-by-rename"); int st;
      bool moved = how != 2 && g.chance(25);
      if (how == 0) { if ((st = d.close())) c.fail("close gave %d", st); st = zsqueeze(f.c_str()); if (st) c.fail("zsqueeze gave %d", st); if ((st = d.openFile(f))) c.fail("reopening after zsqueeze gave %d", st); }
      else { st = zsqueeze7(d.ifltab, g.chance(20), how == 1); if (st) c.fail("zsqueeze7 gave %d", st); if (g.chance(50)) { d.close(); if ((st = d.openFile(f))) c.fail("reopening after zsqueeze7 gave %d", st); } }
      (void)moved; Snap s1 = snapshot(c, d, "after the squeeze"); same(c, s0, s1, "after the squeeze"); writeTimes(c, s0, s1, "after the squeeze"); structure(c, d, "after the squeeze"); counts(c, d, s1, "after the squeeze"); s0 = s1;
    } else if (op == 1) { // copy the file
      S t = c.path(fmt("copy%d.dss", r).c_str()); Dss o; int h2, b2; genConfig(c, h2, b2); if (o.openFile(t, 0, h2, b2)) c.fail("cannot create the target"); bool into = g.chance(35); Snap old; if (into) { int n = (int)g.range(1, 6); mixPopulate(c, o, n); old = snapshot(c, o, "target before"); bool clash = false; for (auto &e : s0) if (old.count(e.first) && old[e.first].type != e.second.type) clash = true; if (clash) { o.close(); continue; } }
      c.note("copy the file%s", into ? " into an existing file" : ""); c.label(into ? "copy-into" : "copy-file"); int st = zcopyFile(d.ifltab, o.ifltab, 0); if (st) c.fail("zcopyFile gave %d", st);
      Snap want = s0; for (auto &e : old) { if (!want.count(e.first)) want[e.first] = e.second; }
      // a location already in the target stays, as when a data set is stored
      for (auto &e : old) if (s0.count(e.first)) { want[e.first].name = e.second.name; }
      follow(want, old);
      if (g.chance(50)) { o.close(); if ((st = o.openFile(t))) c.fail("reopening the copy gave %d", st); }
      Snap got = snapshot(c, o, "copy"); same(c, want, got, "in the copy"); same(c, s0, snapshot(c, d, "source"), "in the source of the copy"); structure(c, o, "copy"); structure(c, d, "source"); counts(c, o, got, "copy"); counts(c, d, s0, "source");
      o.close(); if (g.chance(30) && !into) { d.close(); if ((st = d.openFile(t))) c.fail("opening the copy gave %d", st); f = t; }
    } else if (s0.empty()) continue;
    else { // copy or duplicate one record
      auto it = s0.begin(); std::advance(it, g.draw((uint32_t)s0.size())); S from = it->second.name; if (it->second.type == DATA_TYPE_LOCATION) continue;
      bool dup = op == 3; size_t e = from.rfind('/', from.size() - 2); S to = !dup && g.chance(40) ? from : from.substr(0, e + 1) + fmt("Copy%d/", (int)g.draw(2)); if (g.chance(30) && (it->second.type < 100 || it->second.type >= 200)) to = "/New/Basin" + to.substr(from.find('/', from.find('/', 1) + 1)); // another A and B
      S t = c.path(fmt("rec%d.dss", r).c_str()); Dss o; Dss *to_ = &d; Snap old = s0; int st; if (!dup) { if (o.openFile(t)) c.fail("cannot create the target"); to_ = &o; if (g.chance(50)) mixPopulate(c, o, (int)g.range(1, 6)); old = snapshot(c, o, "target before"); }
      if (old.count(up(to)) && old[up(to)].type != it->second.type) { if (!dup) o.close(); continue; }
      c.note("%s \"%s\" to \"%s\"%s", dup ? "duplicate" : "copy", from.c_str(), to.c_str(), old.count(up(to)) ? " (exists)" : ""); c.label(dup ? "duplicate" : "copy-record"); st = dup ? zduplicateRecord(d.ifltab, from.c_str(), to.c_str()) : zcopyRecord(d.ifltab, o.ifltab, from.c_str(), to.c_str()); if (st) c.fail("%s \"%s\" to \"%s\" gave %d", dup ? "duplicating" : "copying", from.c_str(), to.c_str(), st);
      S real = old.count(up(to)) && old[up(to)].alias ? old[up(to)].primary : up(to); Snap want = old; SnapRec x = it->second; x.name = old.count(real) ? old[real].name : to; x.alias = false; x.primary = ""; want[real] = x; follow(want, old); Snap got = snapshot(c, *to_, "target");
      // the location of the data set comes along, if the target has none
      for (auto &e : got) if (e.second.type == DATA_TYPE_LOCATION && !want.count(e.first)) { S l = e.first; if (s0.count(l)) want[l] = s0[l]; }
      same(c, want, got, dup ? "after duplicating" : "in the target of the copy"); structure(c, *to_, "target"); counts(c, *to_, got, "target"); if (!dup) { same(c, s0, snapshot(c, d, "source"), "in the source of the copy"); o.close(); } else s0 = got;
    }
    c.evals(1); if (s0.size() > 2) c.nontrivial();
    if (g.chance(40)) { mixPopulate(c, d, (int)g.range(1, 6)); s0 = snapshot(c, d, "later"); }
  }
  d.close();
}
eng::Reg r({"C14", "a file of three or more records of mixed kinds was squeezed or copied, or one of its records was copied or duplicated, and every record of both files was compared in full", runC14, 3000, 60000, "exploration", {"the last write time is compared to the second for a squeeze", "a record of another type at the target pathname is not overwritten (the library refuses it)"}});
}
