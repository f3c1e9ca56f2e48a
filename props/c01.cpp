#include "world.hpp"
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
// a record with an array of many million words
static void big(Case &c, World &w) {
  auto &g = c.s; RawRec r, q; int64_t n = g.range(2, c.tier ? 60 : 24) * 1000000 + g.draw(9); uint32_t h = (uint32_t)g.draw(1u << 30); r.nval = 5; IV &v = g.chance(70) ? r.v1 : g.chance(50) ? r.v2 : r.v3; v.resize(n); for (auto &x : v) x = (int)(h = h * 1664525u + 1013904223u); const char *p = "/Big/Record/Array////"; c.note("a record of %lld words", (long long)n);
  int st = rawWrite(w.d, p, r); if (st) c.fail("writing a record of %lld words gave %d", (long long)n, st); st = rawRead(w.d, p, q); if (st) c.fail("reading a record of %lld words gave %d", (long long)n, st); std::string x = recDiff(r, q); if (!x.empty()) c.fail("record of %lld words: %s", (long long)n, x.c_str());
  st = zdelete(w.d.ifltab, p); if (st) c.fail("deleting a record of %lld words gave %d", (long long)n, st); c.label("large record");
}
static void runC01(Case &c) {
  World w(c); w.begin();
  int nops = (int)c.s.range(1, c.tier ? 80 : 45);
  if (c.s.chance(25)) w.burst();
  if (c.s.draw(c.tier ? 1200 : 400) == 399) big(c, w);
  for (int k = 0; k < nops; k++) { w.step(); if (k % 8 == 7) w.checkAll("periodic"); }
  w.checkAll("end");
  int st = w.d.close(); if (st) c.fail("close returned %d", st);
  st = w.d.openFile(w.file, 1); if (st) c.fail("final read-only open returned %d", st);
  w.checkAll("after final reopen");
  w.d.close();
  w.labels(nops);
  if ((w.grew || w.deleted || w.renamed) && w.paths.size() >= 3) c.nontrivial();
}
static eng::Reg r1({"C01", "random histories of write/over-write/read/delete/undelete/rename/duplicate/check/reopen over pathnames with colliding hashes and files with random hash and bin sizes; non-trivial: at least 3 pathnames and a growing over-write, a delete or a rename", runC01, 6000, 60000, "exploration", {"record level interface, version 7 files", "undelete must succeed only while no pathname has been created since the delete (directory entries of deleted records may be re-used); when it succeeds the data must be the deleted data"}});
