// C16: several processes and handles using one file at a time see one history.
#include "rawstore.hpp"
#include "ts.hpp"
#include "mix.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <poll.h>
#include <climits>
#include <functional>
#include <unistd.h>
#include <signal.h>
namespace {
using S = std::string;
enum { OPEN, STORE, READ, DELETE_, RENAME, CHECK, LIST, TSTORE, TREAD, PING, CLOSE, BATCH, SQUEEZE, QUIT };
const char *opName[] = {"open", "store", "read", "delete", "rename", "check", "catalogue", "store series", "read series", "check of another path", "close", "batch", "squeeze", "quit"};
const int NP = 6, NS = 4, NH = 40;
struct Cmd { int op, h, p, q, a, b, v; };
struct Res { int st, rec; unsigned mask, extra; int vals[NH]; };
S pathOf(int p) { return fmt("/C16/P%d/%s////", p, p % 2 ? "a somewhat longer part than the others have" : "x"); }
// S0 and S1 are regular series, S2 is irregular, S3 paired data whose curves are stored a few at a time
S serOf(int s) { return s == 2 ? S("/C16/S2/Flow//IR-Month/x/") : s == 3 ? S("/C16/S3/Stage-Flow///x/") : fmt("/C16/S%d/Flow//1Hour/x/", s); }
struct Child { pid_t pid = 0; int in = -1, out = -1; bool busy = false, dead = false; int mode[2] = {-1, -1}, handles = 1; };
// hour h counts from 30 Jan 2000 12:00, so that the series crosses from one monthly record to the next
void hourText(int h, S &d, S &t) { int a = 12 + h, day = a / 24, hr = a % 24; if (!hr) { hr = 24; day--; } d = day == 0 ? "30Jan2000" : day == 1 ? "31Jan2000" : day == 2 ? "01Feb2000" : "02Feb2000"; t = fmt("%02d00", hr); }
int pStore(Dss &d, int a, int b, int v, bool first = false) {
  std::vector<double> o = {1, 2, 3}, x(3 * (b - a), v); zStructPairedData *p;
  if (first) p = zstructPdNewDoubles(serOf(3).c_str(), o.data(), x.data(), 3, b - a, "ft", "LIN", "cfs", "LIN");
  else { p = zstructPdNew(serOf(3).c_str()); p->doubleValues = x.data(); p->startingCurve = a + 1; p->endingCurve = b; p->startingOrdinate = 1; p->endingOrdinate = 3; }
  int st = zpdStore(d.ifltab, p, 0); p->doubleValues = 0; zstructFree(p); return st;
}
int pRead(Dss &d, int *vals) {
  zStructPairedData *p = zstructPdNew(serOf(3).c_str()); int st = zpdRetrieve(d.ifltab, p, 2);
  if (st == 0) { if (p->numberCurves != NH || p->numberOrdinates != 3) st = -998; else for (int i = 0; i < NH; i++) { double *v = p->doubleValues + 3 * i; vals[i] = v[0] == v[1] && v[1] == v[2] ? (int)v[0] : -77; } }
  zstructFree(p); return st;
}
int iStore(Dss &d, int a, int b, int v) {
  std::vector<double> x(b - a, v); std::vector<int> m; S dt, tm; for (int h = a; h < b; h++) { hourText(h, dt, tm); int j = dateToJulian(dt.c_str()); m.push_back(j * 1440 + ((12 + h) % 24 ? (12 + h) % 24 : 24) * 60); }
  zStructTimeSeries *t = zstructTsNewIrregDoubles(serOf(2).c_str(), x.data(), b - a, m.data(), MINUTE_GRANULARITY, 0, "cfs", "INST-VAL"); int st = ztsStore(d.ifltab, t, 0); zstructFree(t); return st;
}
int iRead(Dss &d, int *vals) {
  for (int i = 0; i < NH; i++) vals[i] = -1; S d1, t1, d2, t2; hourText(0, d1, t1); hourText(NH - 1, d2, t2);
  zStructTimeSeries *t = zstructTsNewTimes(serOf(2).c_str(), d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str()); int st = ztsRetrieve(d.ifltab, t, 0, 2, 0);
  if (st == 0) { long long j0 = dateToJulian("30Jan2000"); for (int i = 0; i < t->numberValues; i++) { long long mn = (long long)t->times[i] * (t->timeGranularitySeconds > 1 ? t->timeGranularitySeconds : 60) / 60 + t->julianBaseDate * 1440LL - j0 * 1440 - 720; if (mn % 60 || mn < 0 || mn / 60 >= NH) { st = -997; break; } int &w = vals[mn / 60]; w = w == -1 ? (int)t->doubleValues[i] : -77; } }
  zstructFree(t); return st;
}
int tStore(Dss &d, int s, int a, int b, int v) {
  if (s == 2) return iStore(d, a, b, v); if (s == 3) return pStore(d, a, b, v);
  std::vector<double> x(b - a, v); S dt, tm; hourText(a, dt, tm); zStructTimeSeries *t = zstructTsNewRegDoubles(serOf(s).c_str(), x.data(), b - a, dt.c_str(), tm.c_str(), "cfs", "INST-VAL"); int st = ztsStore(d.ifltab, t, 0); zstructFree(t); return st;
}
int tRead(Dss &d, int s, int *vals) {
  if (s == 2) return iRead(d, vals); if (s == 3) return pRead(d, vals);
  S d1, t1, d2, t2; hourText(0, d1, t1); hourText(NH - 1, d2, t2); zStructTimeSeries *t = zstructTsNewTimes(serOf(s).c_str(), d1.c_str(), t1.c_str(), d2.c_str(), t2.c_str()); int st = ztsRetrieve(d.ifltab, t, -2, 2, 0); for (int i = 0; i < NH; i++) vals[i] = -1;
  if (st == 0 && t->numberValues == NH) for (int i = 0; i < NH; i++) vals[i] = zisMissingDouble(t->doubleValues[i]) ? -1 : (int)t->doubleValues[i]; else if (st == 0) st = -999; zstructFree(t); return st;
}
[[noreturn]] void serve(int in, int out, const S &file, const std::vector<RawRec> &pool) {
  prctl(PR_SET_PDEATHSIG, SIGKILL); Dss d[2]; Cmd m;
  while (read(in, &m, sizeof m) == (ssize_t)sizeof m) {
    Res r; memset(&r, 0, sizeof r); r.rec = -1; Dss &x = d[m.h];
    switch (m.op) {
      case OPEN: r.st = x.openFile(file, m.a); break;
      case STORE: r.st = rawWrite(x, pathOf(m.p), pool[m.v]); break;
      case READ: { RawRec y; r.st = rawRead(x, pathOf(m.p), y); if (!r.st) { r.rec = -2; for (size_t i = 0; i < pool.size(); i++) if (recDiff(pool[i], y).empty()) r.rec = (int)i; } break; }
      case DELETE_: r.st = zdelete(x.ifltab, pathOf(m.p).c_str()); break;
      case RENAME: r.st = zrename(x.ifltab, pathOf(m.p).c_str(), pathOf(m.q).c_str()); break;
      case CHECK: r.st = zcheck(x.ifltab, pathOf(m.p).c_str()); break;
      case PING: r.st = zcheck(x.ifltab, "/another/path/////"); break;
      case LIST: { zStructCatalog *cat = zstructCatalogNew(); int n = zcatalog(x.ifltab, 0, cat, 0); r.st = n < 0 ? n : 0;
        for (int i = 0; i < cat->numberPathnames && n >= 0; i++) { S u = up(cat->pathnameList[i]); bool got = false; for (int p = 0; p < NP; p++) if (u == up(pathOf(p))) { got = true; if (r.mask >> p & 1) r.extra++; r.mask |= 1u << p; }
          for (int s = 0; s < NS; s++) if (u.compare(0, 8, fmt("/C16/S%d/", s)) == 0) { got = true; r.mask |= 1u << (NP + s); } if (!got && u.compare(0, 9, "/C16/OWN/")) r.extra++; }
        zstructFree(cat); break; }
      case TSTORE: r.st = tStore(x, m.p, m.a, m.b, m.v); break;
      case TREAD: r.st = tRead(x, m.p, r.vals); break;
      case CLOSE: r.st = x.close(); break;
      case BATCH: // m.a operations on records of our own and on our own hours of the series, as fast as possible
        for (int i = 0; i < m.a && !r.st; i++) {
          unsigned k = (unsigned)(m.v + i) * 2654435761u; int rec = (int)((k >> 8) % pool.size()); S p = fmt("/C16/OWN/C%d/R%d///", m.q, (int)((k >> 20) % 12));
          if (k % 4 == 0) { r.st = tStore(x, (int)((k >> 4) % NS), m.q * 10, m.q * 10 + 10, m.q * 1000 + i + 1); if (r.st) r.extra = 1; r.vals[(k >> 4) % NS] = m.q * 1000 + i + 1; }
          else if (k % 16 == 1) { r.st = rawWrite(x, p, pool[rec]); if (r.st) r.extra = 2; else { r.st = zdelete(x.ifltab, p.c_str()); if (r.st) r.extra = 3; r.vals[4 + (k >> 20) % 12] = -1; } }
          else { r.st = rawWrite(x, p, pool[rec]); if (r.st) r.extra = 2; r.vals[4 + (k >> 20) % 12] = rec + 1; RawRec y; if (!r.st && k % 3 == 0) { r.st = rawRead(x, p, y); if (r.st) r.extra = 4; else if (!recDiff(pool[rec], y).empty()) { r.st = -777; r.extra = 5; } } }
          r.rec = i;
        }
        break;
      case SQUEEZE: r.st = zsqueeze(file.c_str()); break;
      case QUIT: _exit(0);
    }
    if (write(out, &r, sizeof r) != (ssize_t)sizeof r) _exit(1);
  }
  _exit(0);
}
struct Team {
  std::vector<Child> k;
  ~Team() { for (auto &c : k) if (c.pid > 0) { kill(c.pid, SIGKILL); int st; waitpid(c.pid, &st, 0); close(c.in); close(c.out); } }
  void start(const S &file, const std::vector<RawRec> &pool) {
    int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(97); pid_t p = fork(); if (p == 0) { for (auto &c : k) { close(c.in); close(c.out); } close(a[1]); close(b[0]); serve(a[0], b[1], file, pool); }
    close(a[0]); close(b[1]); Child c; c.pid = p; c.in = a[1]; c.out = b[0]; k.push_back(c);
  }
  void send(int i, const Cmd &m) { if (write(k[i].in, &m, sizeof m) < 0) k[i].dead = true; k[i].busy = true; }
  // waits for an answer of any of the busy ones
  int wait(int ms, Res &r) {
    std::vector<pollfd> f; std::vector<int> id; for (size_t i = 0; i < k.size(); i++) if (k[i].busy) { f.push_back({k[i].out, POLLIN, 0}); id.push_back((int)i); }
    if (f.empty() || poll(f.data(), f.size(), ms) <= 0) return -1;
    for (size_t j = 0; j < f.size(); j++) if (f[j].revents) { if (read(f[j].fd, &r, sizeof r) != (ssize_t)sizeof r) { k[id[j]].dead = true; r.st = -31337; } k[id[j]].busy = false; return id[j]; }
    return -1;
  }
};
struct St {
  std::array<int, NP> rec; std::array<std::array<int, NH>, NS> ser;
  bool operator<(const St &o) const { return std::tie(rec, ser) < std::tie(o.rec, o.ser); }
};
struct Done { Cmd m; int child, inv, ret; Res r; bool finished; };
// the operation on the state: false if the answer given does not fit
bool apply(St &s, const Cmd &m, const Res &r) {
  switch (m.op) {
    case STORE: if (r.st) return false; s.rec[m.p] = m.v; return true;
    case READ: return s.rec[m.p] < 0 ? r.st == STATUS_RECORD_NOT_FOUND : r.st == 0 && r.rec == s.rec[m.p];
    case CHECK: return r.st == (s.rec[m.p] < 0 ? STATUS_RECORD_NOT_FOUND : 0);
    case DELETE_: if (s.rec[m.p] < 0) return r.st != 0; s.rec[m.p] = -1; return r.st == 0;
    case RENAME: if (s.rec[m.p] < 0) return r.st != 0; if (r.st) return false; s.rec[m.q] = s.rec[m.p]; s.rec[m.p] = -1; return true;
    case LIST: { if (r.st || r.extra) return false; for (int p = 0; p < NP; p++) if ((r.mask >> p & 1) != (s.rec[p] >= 0)) return false; for (int k = 0; k < NS; k++) { bool any = k == 3; for (int v : s.ser[k]) any |= v >= 0; if ((r.mask >> (NP + k) & 1) != any) return false; } return true; }
    case TSTORE: if (r.st) return false; for (int i = m.a; i < m.b; i++) s.ser[m.p][i] = m.v; return true;
    case TREAD: { bool any = false; for (int i = 0; i < NH; i++) { if (r.vals[i] != s.ser[m.p][i]) return false; any |= r.vals[i] >= 0; } return any ? r.st == 0 : true; }
    default: return r.st == 0 || m.op == PING;
  }
}
S cmdText(const Cmd &m) {
  switch (m.op) { case STORE: return fmt("store record %d as P%d", m.v, m.p); case READ: case CHECK: case DELETE_: return fmt("%s P%d", opName[m.op], m.p); case RENAME: return fmt("rename P%d to P%d", m.p, m.q); case TSTORE: return fmt("store series S%d hours %d..%d value %d", m.p, m.a, m.b - 1, m.v); case TREAD: return fmt("read series S%d", m.p); case OPEN: return fmt("open with access %d", m.a); default: return opName[m.op]; }
}
S resText(const Done &d) {
  if (!d.finished) return "-> not finished";
  if (d.m.op == READ) return fmt("-> %d record %d", d.r.st, d.r.rec); if (d.m.op == LIST) return fmt("-> %d, set %x, others %u", d.r.st, d.r.mask, d.r.extra);
  if (d.m.op == TREAD) { S x = fmt("-> %d", d.r.st); for (int v : d.r.vals) x += fmt(" %d", v); return x; } return fmt("-> %d", d.r.st);
}
struct Lin {
  const std::vector<Done> &h; std::set<St> out; std::set<std::pair<unsigned, St>> seen;
  void go(unsigned mask, const St &s) {
    if (!seen.insert({mask, s}).second) return; if (mask + 1 == 1u << h.size()) { out.insert(s); return; }
    for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1)) { bool first = true; for (size_t j = 0; j < h.size(); j++) if (j != i && !(mask >> j & 1) && h[j].ret < h[i].inv) first = false; if (!first) continue; St n = s; if (apply(n, h[i].m, h[i].r)) go(mask | 1u << i, n); }
  }
};
S stText(const St &s) { S x; for (int p = 0; p < NP; p++) x += fmt(" P%d=%d", p, s.rec[p]); for (int k = 0; k < NS; k++) { x += fmt("  S%d:", k); for (int v : s.ser[k]) x += v < 0 ? S(" -") : fmt(" %d", v); } return x; }
// one process asks for exclusive access: as long as it has it nobody else writes, and a refused write leaves nothing behind
void exclusive(Case &c, const S &f, const std::vector<RawRec> &pool) {
  auto &g = c.s; Team t; int nc = (int)g.range(2, 3); for (int i = 0; i < nc; i++) t.start(f, pool); std::array<int, NP> rec; rec.fill(-1); S log; uint64_t ev = 0;
  auto call = [&](int i, Cmd m) { Res r; memset(&r, 0, sizeof r); t.send(i, m); for (int w = 0; t.k[i].busy; w += 100) { if (w > 30000) c.fail("process %d does not answer: %s%s", i, cmdText(m).c_str(), log.c_str()); t.wait(100, r); } if (t.k[i].dead) c.fail("process %d died:%s", i, log.c_str());
    log += fmt("\n  process %d: %s", i, resText({m, i, 0, 0, r, true}).insert(0, cmdText(m) + " ").c_str()); c.evals(++ev); return r; };
  std::vector<int> mode(nc, -1); auto others2 = [&]() { return nc == 2 ? (int)g.pick({0, 2, 3, 1}) : (int)g.pick({2, 2, 1}); }; bool late = g.chance(60); bool held = false, everHeld = false, refused = false;
  auto others = [&]() { for (int i = 1; i < nc; i++) if (mode[i] >= 0) return true; return false; };
  auto openAs = [&](int i, int m) { Res r = call(i, {OPEN, 0, 0, 0, m, 0, 0}); if (r.st == 0 && m == 4 && others()) c.fail("exclusive access is given although another process has the file open:%s", log.c_str()); if (r.st == 0) mode[i] = m; else if (m != 4 && !held) c.fail("opening with access %d is refused although nobody has exclusive access:%s", m, log.c_str()); return r.st; };
  auto write = [&](int i) {
    int p = (int)g.draw(NP - 1), v = (int)g.draw((uint32_t)pool.size() - 1), o = (int)g.weighted({70, 30}); Cmd m = o ? Cmd{DELETE_, 0, p, 0, 0, 0, 0} : Cmd{STORE, 0, p, 0, 0, 0, v}; Res r = call(i, m);
    if (o && rec[p] < 0) { if (r.st == 0) c.fail("deleting a record that is not there succeeds:%s", log.c_str()); return; }
    if (r.st == 0) { if (i && held) c.fail("another process wrote while process 0 had exclusive access:%s", log.c_str()); rec[p] = o ? -1 : v; if (i == 0 && mode[0] == 4) held = everHeld = true; }
    else { refused = true; if (i == 0 && !others()) c.fail("a write with exclusive access is refused although nobody else has the file open:%s", log.c_str()); if (i && mode[0] != 4) c.fail("a write is refused although nobody has exclusive access:%s", log.c_str()); }
  };
  if (late) for (int i = 1; i < nc; i++) if (g.chance(60)) { openAs(i, others2()); if (mode[i] >= 0 && mode[i] != 1 && g.chance(50)) write(i); }
  auto squeeze = [&]() { Res r = call(0, {SQUEEZE, 0, 0, 0, 0, 0, 0}); bool w = others(); c.label("squeeze");
    if (w) { refused = true; if (r.st == 0) c.fail("a file that another process has open is squeezed:%s", log.c_str()); } else if (r.st && !others()) c.fail("squeezing a file that nobody else has open gave %d:%s", r.st, log.c_str()); };
  if (g.chance(30)) squeeze();
  if (openAs(0, 4) == 0 && !others()) held = everHeld = true; else if (mode[0] < 0 && !others()) c.fail("exclusive access is refused although nobody else has the file open:%s", log.c_str());
  int n = (int)g.range(3, 9), slow = 0;
  for (int k = 0; k < n; k++) { int i = (int)g.draw((uint32_t)nc - 1);
    if (mode[i] < 0) { if (i == 0 && g.chance(40)) squeeze(); else if (i == 0) { if (openAs(0, 4) == 0 && !others()) held = everHeld = true; } else openAs(i, others2()); continue; }
    if (i && g.chance(15)) { Res r = call(i, {CLOSE, 0, 0, 0, 0, 0, 0}); mode[i] = -1; if (r.st) c.fail("closing gave %d:%s", r.st, log.c_str()); continue; }
    if (i == 0 && g.chance(40)) { int p = (int)g.draw(NP - 1); Res r = call(0, {READ, 0, p, 0, 0, 0, 0}); if (held && (rec[p] < 0 ? r.st == 0 : r.st || r.rec != rec[p])) c.fail("the process with exclusive access does not read what the file has (P%d should have record %d):%s", p, rec[p], log.c_str()); continue; }
    if (mode[i] == 1 || (i && held && slow++ > 1)) continue; write(i); }
  if (mode[0] >= 0) { Res r = call(0, {CLOSE, 0, 0, 0, 0, 0, 0}); mode[0] = -1; held = false; if (r.st) c.fail("closing gave %d:%s", r.st, log.c_str()); }
  for (int i = 1; i < nc; i++) if (mode[i] >= 0) { if (mode[i] != 1) write(i); for (int p = 0; p < NP; p++) { Res r = call(i, {READ, 0, p, 0, 0, 0, 0}); if (rec[p] < 0 ? r.st == 0 : r.st || r.rec != rec[p]) c.fail("P%d should have record %d:%s", p, rec[p], log.c_str()); } Res r = call(i, {CLOSE, 0, 0, 0, 0, 0, 0}); if (r.st) c.fail("closing gave %d:%s", r.st, log.c_str()); }
  c.note("%s", log.c_str()); Dss d; if (d.openFile(f)) c.fail("cannot open the file afterwards:%s", log.c_str()); mixStructure(c, d, "after exclusive access");
  for (int p = 0; p < NP; p++) { RawRec y; int st = rawRead(d, pathOf(p), y); if (rec[p] < 0 ? st == 0 : st || !recDiff(pool[rec[p]], y).empty()) c.fail("afterwards P%d is not record %d:%s", p, rec[p], log.c_str()); }
  d.close(); if (everHeld && refused) c.nontrivial(); c.label(everHeld ? "exclusive access" : "no exclusive access"); if (refused) c.label("refused for exclusive access");
}
void runC16(Case &c) {
  quiet(); auto &g = c.s; int hash, bin; genConfig(c, hash, bin); S f = c.path("t.dss"); { Dss d; if (d.openFile(f, 0, hash, bin)) c.fail("cannot create a file"); if (pStore(d, 0, NH, -1, true)) c.fail("cannot store the paired data"); d.close(); }
  std::vector<RawRec> pool; for (int i = 0; i < 6; i++) { RawRec r = genRec(c, 300, i % 3 ? 60 : 1200); while (r.v1.size() < 2) r.v1.push_back(i); r.v1[0] = 1000 + i; pool.push_back(r); }
  if (g.chance(4) || getenv("HECV_EXCL")) { exclusive(c, f, pool); return; }
  int nc = (int)g.range(2, 4); bool race = g.chance(35) || getenv("HECV_RACE"); if (race) c.racy(); Team t; for (int i = 0; i < nc; i++) t.start(f, pool);
  for (int i = 0; i < nc; i++) t.k[i].handles = !race && g.chance(25) ? 2 : 1; bool two = false; for (int i = 0; i < nc; i++) two |= t.k[i].handles == 2;
  // POSIX locks: a process that opens or closes the file again loses its advisory locks, so others must not wait on those
  auto mode = [&](int i) { if (t.k[i].handles == 2) return 2; int m = (int)g.pick({2, 2, 0, 3, race ? 2 : 1}); return two && m != 1 ? 2 : m; };
  St s0; s0.rec.fill(-1); for (auto &x : s0.ser) x.fill(-1);
  std::set<St> states = {s0}; std::vector<Done> seg; int clock = 0; S last; uint64_t ev = 0;
  auto hist = [&]() { S x; for (auto &d : seg) x += fmt("\n  process %d handle %d: %s %s", d.child, d.m.h, cmdText(d.m).c_str(), resText(d).c_str()); return x; };
  auto pend = [&]() { for (auto &k : t.k) if (k.busy) return true; return false; };
  auto take = [&](int ms) -> bool { Res r; int i = t.wait(ms, r); if (i < 0) return false; for (auto it = seg.rbegin(); it != seg.rend(); ++it) if (it->child == i && !it->finished) { it->r = r; it->ret = ++clock; it->finished = true; c.note("process %d: %s %s", i, cmdText(it->m).c_str(), resText(*it).c_str()); break; } if (t.k[i].dead) c.fail("process %d died:%s", i, hist().c_str()); return true; };
  auto settle = [&]() { // nothing is going on: which histories explain the answers?
    Lin l{seg, {}, {}}; for (auto &s : states) l.go(0, s);
    if (l.out.empty()) c.fail("no order of these operations explains their answers:%s\n  before:%s", hist().c_str(), stText(*states.begin()).c_str());
    states = l.out; seg.clear(); if (states.size() > 1) c.label("more than one possible order"); };
  auto issue = [&](int i, Cmd m, int ms) { if (!pend()) { if (!seg.empty()) settle(); } if (pend() && m.op != PING && m.op != OPEN && m.op != CLOSE) c.label("at the same time"); seg.push_back({m, i, ++clock, INT_MAX, {}, false}); t.send(i, m); c.evals(++ev); if (ms) { double end = ms; while (t.k[i].busy && end > 0) { if (!take(20)) end -= 20; } } };
  for (int i = 0; i < nc; i++) for (int h = 0; h < t.k[i].handles; h++) if (h == 0 || g.chance(70)) { int a = mode(i); issue(i, {OPEN, h, 0, 0, a, 0, 0}, 5000); if (t.k[i].busy) c.fail("opening does not finish"); t.k[i].mode[h] = a; if (seg.back().r.st) c.fail("opening with access %d gives %d", a, seg.back().r.st); }
  settle();
  if (race) { // all at once
    int n = (int)g.range(20, c.tier ? 150 : 60); std::vector<Cmd> cs; for (int i = 0; i < nc; i++) { Cmd m = {BATCH, 0, 0, i, n, 0, (int)g.draw(100000)}; if (t.k[i].mode[0] == 1) m.a = 0; cs.push_back(m); } for (int i = 0; i < nc; i++) t.send(i, cs[i]);
    std::vector<Res> rs(nc); std::vector<char> closed(nc); int left = nc; double waited = 0;
    while (left) { Res r; int i = t.wait(100, r); if (i < 0) { waited += 100; if (waited > 40000) c.fail("processes storing at the same time do not finish"); continue; } waited = 0; if (t.k[i].dead) c.fail("process %d died while several were storing", i); if (!closed[i]) { rs[i] = r; if (r.st) c.fail("process %d of %d, all storing at the same time with accesses %d.., operation %d failed with %d (%s)", i, nc, t.k[i].mode[0], r.rec + 1, r.st, r.extra == 5 ? "its own record reads back different" : r.extra == 4 ? "read" : r.extra == 3 ? "delete" : r.extra == 1 ? "store series" : "store"); closed[i] = 1; t.send(i, {CLOSE, 0, 0, 0, 0, 0, 0}); } else { left--; if (r.st) c.fail("closing gives %d", r.st); } c.evals(ev += n); }
    Dss d; if (d.openFile(f)) c.fail("cannot open the file afterwards"); mixStructure(c, d, "after several processes stored at the same time");
    for (int i = 0; i < nc; i++) for (int j = 0; j < 12; j++) { RawRec y; int st = rawRead(d, fmt("/C16/OWN/C%d/R%d///", i, j), y), want = rs[i].vals[4 + j]; if (want <= 0) { if (st != STATUS_RECORD_NOT_FOUND) c.fail("record %d of process %d, deleted or never stored, reads with %d", j, i, st); } else { if (st) c.fail("record %d of process %d reads with %d: the store is lost", j, i, st); S x = recDiff(pool[want - 1], y); if (!x.empty()) c.fail("record %d of process %d is not what it stored last:%s", j, i, x.c_str()); } }
    for (int s = 0; s < NS; s++) { int v[NH]; tRead(d, s, v); for (int i = 0; i < nc; i++) for (int h = 0; h < 10; h++) { int want = rs[i].vals[s] ? rs[i].vals[s] : -1; if (v[i * 10 + h] != want) c.fail("series S%d hour %d, stored by process %d only, is %d, not %d", s, i * 10 + h, i, v[i * 10 + h], want); } }
    d.close(); c.nontrivial(); c.label("race"); return;
  }
  int steps = (int)g.range(4, c.tier ? 60 : 30), tag = 0, writes = 0; std::set<int> writers;
  auto canUse = [&](int i, int &h) { if (t.k[i].busy) return false; h = t.k[i].handles == 2 ? (int)g.draw(2) : 0; return true; };
  for (int k = 0; k < steps; k++) {
    while (take(0)) {} if (seg.size() >= 7) { for (int tries = 0; pend() && tries < 200; tries++) { for (int i = 0; i < nc; i++) if (!t.k[i].busy) for (int h = 0; h < 2; h++) if (t.k[i].mode[h] >= 0 && !t.k[i].busy) { t.send(i, {PING, h, 0, 0, 0, 0, 0}); Res r; int j; while ((j = t.wait(3000, r)) >= 0 && j != i) { for (auto it = seg.rbegin(); it != seg.rend(); ++it) if (it->child == j && !it->finished) { it->r = r; it->ret = ++clock; it->finished = true; break; } } } take(50); } if (pend()) c.fail("blocked although every other process has had a turn:%s", hist().c_str()); settle(); }
    int i = (int)g.draw((uint32_t)nc), h; if (!canUse(i, h)) continue;
    Child &x = t.k[i];
    if (x.mode[h] < 0) { int a = mode(i); issue(i, {OPEN, h, 0, 0, a, 0, 0}, 1000); if (!x.busy && seg.back().finished && seg.back().r.st == 0) x.mode[h] = a; if (x.busy) c.fail("opening does not finish:%s", hist().c_str()); continue; }
    Cmd m = {0, h, (int)g.draw(NP), (int)g.draw(NP), 0, 0, 0}; bool ro = x.mode[h] == 1; bool w = !ro && g.chance(55); std::set<int> busyP, busyS; for (auto &d : seg) if (!d.finished) { if (d.m.op == STORE || d.m.op == DELETE_ || d.m.op == RENAME) { busyP.insert(d.m.p); if (d.m.op == RENAME) busyP.insert(d.m.q); } if (d.m.op == TSTORE) busyS.insert(d.m.p); }
    bool wait = true;
    if (w) { int o = (int)g.weighted({45, 15, 12, 28}); m.op = o == 0 ? STORE : o == 1 ? DELETE_ : o == 2 ? RENAME : TSTORE; if (m.op == STORE) m.v = (int)g.draw((uint32_t)pool.size()); if (m.op == RENAME && m.p == m.q) m.q = (m.p + 1) % NP; if (m.op == TSTORE) { m.p = (int)g.draw(NS - 1); m.a = (int)g.draw(NH); m.b = m.a + 1 + (int)g.draw((uint32_t)(NH - m.a)); m.v = ++tag; } wait = g.chance(70); if (!wait) c.racy(); writes++; writers.insert(i * 2 + h); }
    else { int o = (int)g.weighted({40, 15, 20, 20, 5}); m.op = o == 0 ? READ : o == 1 ? CHECK : o == 2 ? LIST : o == 3 ? TREAD : CLOSE; if (m.op == TREAD) m.p = (int)g.draw(NS - 1);
      if ((m.op == READ || m.op == CHECK) && busyP.count(m.p)) m.op = PING; if (m.op == TREAD && busyS.count(m.p)) m.op = PING; if (m.op == LIST && pend()) m.op = PING; }
    issue(i, m, wait ? (pend() ? 60 : 40) : 0); if (m.op == CLOSE) { if (x.busy) { while (x.busy && take(5000)) {} if (x.busy) c.fail("closing does not finish:%s", hist().c_str()); } x.mode[h] = -1; }
    if (!w) { while (x.busy) if (!take(5000)) c.fail("a read does not finish:%s", hist().c_str()); }
    if (wait && w && x.busy) c.label("had to wait for another process");
  }
  // let everyone finish and close
  for (int tries = 0; tries < 400 && pend(); tries++) { for (int i = 0; i < nc; i++) if (!t.k[i].busy) for (int h = 0; h < 2; h++) if (t.k[i].mode[h] >= 0) { t.send(i, {CLOSE, h, 0, 0, 0, 0, 0}); Res r; int j; while ((j = t.wait(5000, r)) >= 0 && j != i) { for (auto it = seg.rbegin(); it != seg.rend(); ++it) if (it->child == j && !it->finished) { it->r = r; it->ret = ++clock; it->finished = true; break; } } t.k[i].mode[h] = -1; } take(50); }
  if (pend()) c.fail("still blocked after all other processes have closed the file:%s", hist().c_str());
  for (int i = 0; i < nc; i++) for (int h = 0; h < 2; h++) if (t.k[i].mode[h] >= 0) { issue(i, {CLOSE, h, 0, 0, 0, 0, 0}, 5000); if (t.k[i].busy) c.fail("closing does not finish"); }
  settle();
  if (writers.size() > 1 && writes > 2) c.nontrivial(); c.label(fmt("%d processes", nc).c_str());
  Dss d; int st = d.openFile(f); if (st) c.fail("cannot open the file afterwards, status %d", st); if (!getenv("HECV_SKIPS")) mixStructure(c, d, "after all have closed");
  Done a{{LIST, 0, 0, 0, 0, 0, 0}, 99, ++clock, 0, {}, true}; memset(&a.r, 0, sizeof a.r);
  { Res &r = a.r; zStructCatalog *cat = zstructCatalogNew(); int n = zcatalog(d.ifltab, 0, cat, 0); r.st = n < 0 ? n : 0; for (int i = 0; i < cat->numberPathnames && n >= 0; i++) { S u = up(cat->pathnameList[i]); bool got = false; for (int p = 0; p < NP; p++) if (u == up(pathOf(p))) { got = true; if (r.mask >> p & 1) r.extra++; r.mask |= 1u << p; } for (int s = 0; s < NS; s++) if (u.compare(0, 8, fmt("/C16/S%d/", s)) == 0) { got = true; r.mask |= 1u << (NP + s); } if (!got) r.extra++; } zstructFree(cat); }
  a.ret = ++clock; seg.push_back(a);
  for (int p = 0; p < NP; p++) { Done b{{READ, 0, p, 0, 0, 0, 0}, 99, ++clock, 0, {}, true}; memset(&b.r, 0, sizeof b.r); RawRec y; b.r.st = rawRead(d, pathOf(p), y); b.r.rec = -2; for (size_t i = 0; i < pool.size(); i++) if (!b.r.st && recDiff(pool[i], y).empty()) b.r.rec = (int)i; b.ret = ++clock; seg.push_back(b); }
  for (int s = 0; s < NS; s++) { Done b{{TREAD, 0, s, 0, 0, 0, 0}, 99, ++clock, 0, {}, true}; memset(&b.r, 0, sizeof b.r); b.r.st = tRead(d, s, b.r.vals); b.ret = ++clock; seg.push_back(b); }
  settle(); d.close();
}
}
eng::Reg r({"C16", "at least two handles or processes wrote, three or more writes in all; or one had exclusive access and another was refused", runC16, 2500, 15000, "exploration", {"processes of one machine on a local file system", "a read and a write of the same record at the very same time are not judged"}});
