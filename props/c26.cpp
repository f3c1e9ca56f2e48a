#include "world.hpp"
static void runC26(Case &c) {
  World w(c); w.begin((int)c.s.range(1, 3)); w.maxValues = 900;
  int nops = (int)c.s.range(2, c.tier ? 90 : 45);
  for (int k = 0; k < nops; k++) {
    if (c.s.chance(6)) w.setReclaim((int)c.s.range(1, 3));
    w.step({44, 2, 22, 8, 6, 4, 5, 1});
    if (k % 6 == 5) w.checkAll("periodic");
  }
  w.checkAll("end"); w.checkStructure("end"); w.checkCounts("end");
  int st = w.d.close(); if (st) c.fail("close returned %d", st);
  st = w.d.openFile(w.file, 1); if (st) c.fail("final read-only open returned %d", st);
  w.checkAll("after final reopen"); w.checkStructure("after final reopen"); w.checkCatalog("after final reopen", 1);
  long long re = 0; long long *fh = (long long *)w.d.ifltab[0]; (void)fh; (void)re;
  w.d.close(); w.labels(nops);
  if ((w.grew || w.deleted) && w.paths.size() >= 3) c.nontrivial();
}
static eng::Reg r({"C26", "random record histories with reclamation levels 1-3 switched during the history, records up to several thousand words; non-trivial: at least 3 pathnames and freed space (a delete or a growing over-write)", runC26, 6000, 60000, "exploration", {"undelete is only checked for records deleted while reclamation is off"}});
