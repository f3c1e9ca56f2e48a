#include "world.hpp"
static void all(World &w, const char *when, int sorted) { w.checkStructure(when); w.checkCounts(when); w.checkCatalog(when, sorted); }
static void runC02(Case &c) {
  World w(c); w.begin(c.s.chance(20) ? 3 : 0); w.maxValues = 120;
  int nops = (int)c.s.range(1, c.tier ? 60 : 30);
  if (c.s.chance(35)) w.burst();
  for (int k = 0; k < nops; k++) {
    w.step({34, 2, 16, 8, 10, 8, 6, 2});
    if (c.s.chance(15)) all(w, "during the history", (int)c.s.draw(2));
  }
  all(w, "at the end", 0); all(w, "at the end, sorted", 1);
  int st = w.d.close(); if (st) c.fail("close returned %d", st);
  st = w.d.openFile(w.file, c.s.chance(50) ? 1 : 0); if (st) c.fail("final open returned %d", st);
  all(w, "after reopen", 0); all(w, "after reopen, sorted", 1); w.checkAll("after reopen");
  w.d.close();
  w.labels(nops); c.label("records<=%d", w.live.size() <= 3 ? 3 : w.live.size() <= 20 ? 20 : 100);
  if ((w.deleted || w.renamed) && w.live.size() >= 3) c.nontrivial();
}
static eng::Reg r({"C02", "random record histories (as C01, plus reclamation) with the four library file checks, the record count and the sorted and unsorted catalogue compared with the model during, after and on reopening; non-trivial: at least 3 live records and a delete or a rename", runC02, 5000, 50000, "exploration", {"record level interface, version 7 files", "record payloads do not contain the 64-bit info-block flag"}});
