// Recognition, creation and protection of files: any file content, name and access mode; then anything tried on a read-only handle.
#include "mix.hpp"
#include "hecdss.h"
#include "wrap.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <grp.h>
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
extern "C" { int zundelete(long long *ifltab, const char *pathname); int zundeleteAll(long long *ifltab); int zduplicateRecord(long long *ifltab, const char *from, const char *to); int zlocationDelete(long long *ifltab, const char *pathname); int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace); int zsqueeze(const char *); }
namespace {
typedef std::string S;
S slurp(const S &p) { S s; int f = open(p.c_str(), O_RDONLY); if (f < 0) return "<unreadable>"; char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, n); close(f); return s; }
void spit(const S &p, const S &d) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); size_t a = 0; while (a < d.size()) { ssize_t n = write(f, d.data() + a, d.size() - a); if (n <= 0) break; a += n; } close(f); }
int countFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
// every directory entry below the case's directory: kind, size, content
std::map<S, S> tree(const S &dir, const S &rel = "") {
  std::map<S, S> m; DIR *d = opendir(dir.c_str()); if (!d) return m;
  while (dirent *e = readdir(d)) { S n = e->d_name; if (n == "." || n == "..") continue; S p = dir + "/" + n; struct stat b; if (lstat(p.c_str(), &b)) continue; S k = rel + n;
    if (S_ISDIR(b.st_mode)) { m[k] = "dir"; for (auto &x : tree(p, k + "/")) m.insert(x); } else if (S_ISLNK(b.st_mode)) m[k] = "link"; else m[k] = fmt("%o ", b.st_mode & 0777) + slurp(p); }
  closedir(d); return m;
}
S treeDiff(const std::map<S, S> &a, const std::map<S, S> &b, const S &except = "") {
  for (auto &e : a) { if (e.first == except) continue; auto it = b.find(e.first); if (it == b.end()) return "\"" + e.first + "\" is gone"; if (it->second != e.second) { size_t i = 0; while (i < e.second.size() && i < it->second.size() && e.second[i] == it->second[i]) i++; return fmt("\"%s\" has changed (%zu bytes, were %zu; first difference at %zu)", e.first.c_str(), it->second.size() - 4, e.second.size() - 4, i - 4); } }
  for (auto &e : b) if (e.first != except && !a.count(e.first)) return "\"" + e.first + "\" has appeared"; return "";
}
int errNumber(int st) { return st < 0 ? (int)((-(long long)st / 100) % 100) : -1; }
void unprivileged(Case &c) { // from here on file permissions count
  if (getuid()) return; S d = c.dir; for (int i = 0; i < 12 && d.size() > 1; i++) { if (i) { struct stat b; if (!stat(d.c_str(), &b) && !(b.st_mode & 1)) chmod(d.c_str(), (b.st_mode & 07777) | 0111); } d = d.substr(0, d.rfind('/')); }
  if (chown(c.dir.c_str(), 65534, 65534) || setgroups(0, 0) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) c.label("privileges kept");
}
S validFile(Case &c, Snap *snap) { // a populated version 7 file
  S f = c.dir + "/valid-source.dss"; int hash, bin; genConfig(c, hash, bin); Dss d; int st = d.openFile(f, 0, hash, bin); if (st) c.fail("creating a file gave %d", st); mixPopulate(c, d, 1 + (int)c.s.draw(7), 2, false); if (snap) *snap = snapshot(c, d, "after populating"); if ((st = d.close())) c.fail("closing gave %d", st); S b = slurp(f); unlink(f.c_str()); return b;
}
enum Kind { ABSENT, EMPTY, TEXT, RANDOM, NEARLY, V6, OTHERVER, V7, TRUNC, DAMAGED, DIRECTORY, DANGLING, NODIR, LONGNAME };
const char *kname[] = {"absent", "empty", "text", "random bytes", "nearly an identifier", "version 6", "other version", "version 7", "truncated version 7", "damaged version 7", "directory", "dangling link", "missing directory", "unusable name"};
S randBytes(Case &c, size_t n) { S s; uint64_t h = c.s.draw(1ull << 40) + 1; for (size_t i = 0; i < n; i++) { h = h * 6364136223846793005ull + 1442695040888963407ull; s.push_back((char)(h >> 56)); } return s; }
S header(const char *ver, size_t n, Case &c) { S s = randBytes(c, n); memcpy(&s[0], "ZDSS", n < 4 ? n : 4); size_t l = strlen(ver); for (size_t i = 0; i < l && 16 + i < n; i++) s[16 + i] = ver[i]; return s; }
size_t len(Case &c) { return c.s.weighted({40, 30, 20, 10}) == 0 ? 1 + c.s.draw(40) : c.s.pick({(int)32, 31, 33, 100, 799, 800, 801, 808}) + (c.s.chance(50) ? 0 : c.s.draw(5000)); }

// a long path: nested directories, up to about 900 characters
void deepen(Case &c) { if (!c.s.chance(12)) return; S d = c.dir; int n = 1 + (int)c.s.draw(5); for (int i = 0; i < n; i++) { S e = d + "/" + S(20 + c.s.draw(120), (char)('a' + i)); if (e.size() > 880) break; d = e; mkdir(d.c_str(), 0777); chmod(d.c_str(), 0777); } c.dir = d; if (chdir(d.c_str())) c.fail("cannot enter the directory"); c.label("long path"); }
// messages are formatted, at any level
void messages(Case &c) { if (!c.s.chance(12)) return; hec_dss_open_log_file("/dev/null"); zset("mlvl", "", 1 + (int)c.s.draw(15)); c.label("with messages"); }
void recognise(Case &c) {
  messages(c); deepen(c); 
  bool unpriv = c.s.chance(50); if (unpriv) unprivileged(c);
  Kind k = (Kind)c.s.weighted({8, 8, 10, 8, 8, 10, 6, 12, 14, 12, 4, 4, 4, 3}); S content; Snap snap; bool file = true;
  switch (k) {
  case TEXT: { size_t n = len(c); while (content.size() < n) content += mixWord(c, 1 + (int)c.s.draw(12)) + (c.s.chance(20) ? "\n" : " "); content.resize(n); break; }
  case RANDOM: content = randBytes(c, len(c)); break;
  case NEARLY: { content = c.s.chance(50) ? header("7-XX", len(c), c) : validFile(c, 0); const char *m[] = {"zdss", "ZDS ", "SSDZ", "DSSZ", "ZDSs", " ZDS"}; memcpy(&content[0], m[c.s.draw(6)], content.size() < 4 ? content.size() : 4); break; }
  case V6: content = header(c.s.pick({"6-YO", "6-VA", "6-WA", "6"}), len(c), c); break;
  case OTHERVER: content = header(c.s.pick({"5-AA", "8-AA", "4-AA", "    ", "A-7 ", "-7-A", "0000"}), len(c), c); break;
  case V7: content = validFile(c, &snap); break;
  case TRUNC: { content = validFile(c, &snap); size_t n = content.size(); content.resize(c.s.chance(50) ? 1 + c.s.draw(1200 < n ? 1200 : n - 1) : 1 + c.s.draw(n - 1)); break; }
  case DAMAGED: { // what identifies the file, the size of its header or the end of the header is wrong
    content = validFile(c, 0); std::vector<size_t> at = {0, 8, 16}; for (size_t w = 24; w + 8 <= content.size() && w < 4000; w += 8) { long long v; memcpy(&v, &content[w], 8); if (v == -97531) { at.push_back(w); break; } } int m = 1 + (int)c.s.draw(2);
    for (int i = 0; i < m; i++) { size_t w = c.s.pick(at); if (c.s.chance(50)) content[w + c.s.draw(8)] ^= (char)(1 + c.s.draw(255)); else { long long v = c.s.pick(std::vector<long long>{0, 1, -1, 1ll << 31, -(1ll << 31), 1ll << 40, 1ll << 62, 100, 1000, 50, 7, 99999}); memcpy(&content[w], &v, 8); } } break; }
  case ABSENT: case DIRECTORY: case DANGLING: case NODIR: case LONGNAME: file = false; break;
  case EMPTY: break;
  }
  // the name as given and the file it stands for
  S stem = c.s.pick(std::vector<S>{"a", "file", "My File", "x.y", "name-with-dashes", "\xc3\xa9t\xc3\xa9", "sub.dss"}), ext = c.s.pick(std::vector<S>{".dss", ".dss", ".DSS", ".Dss", "", ".ds-", ".txt"}); if (stem == "sub.dss" && ext == "") ext = ".dss";
  S real = c.dir + "/" + stem + ext; { S e = ext; for (auto &ch : e) ch = tolower(ch); if (e != ".dss" && e != ".ds-") real += ".dss"; }
  S name = c.s.chance(50) ? stem + ext : c.s.chance(30) ? c.dir + "/./" + stem + ext : c.dir + "/" + stem + ext; bool linked = false;
  if (k == NODIR) { name = c.dir + "/nowhere/" + stem + ext; real = c.dir + "/nowhere/" + stem + ".dss"; }
  bool bad = k == LONGNAME && c.s.chance(25); if (bad) { name = c.s.pick(std::vector<S>{"", "\"", "\"\""}); real = ""; }
  else if (k == LONGNAME) { bool many = c.s.chance(50); if (many) { name = c.dir; int n = 300 + (int)c.s.draw(400); for (int i = 0; i < n; i++) name += "/."; name += "/a.dss"; for (int i = 0; i < 40 && name.size() < 1030; i++) name.insert(name.size() - 5, "b"); } else name = S(256 + c.s.draw(400), 'n') + ".dss"; real = ""; if (many && name.size() <= 1019) { k = ABSENT; real = c.dir + name.substr(name.rfind('/')); if (real.size() - real.rfind('/') > 250) { real = ""; k = LONGNAME; } } }
  if (k == DANGLING) symlink((c.dir + "/target.dss").c_str(), real.c_str()); if (k == DIRECTORY) mkdir(real.c_str(), 0755);
  int mode = -1; if (file) { S at = real; if (c.s.chance(15)) { linked = true; at = c.dir + "/pointed-to"; symlink(at.c_str(), real.c_str()); } spit(at, content); if (unpriv && c.s.chance(45)) { mode = c.s.pick({0444, 0444, 0400, 0000, 0222}); chmod(at.c_str(), mode); } }
  bool nodirWrite = false; if (k == ABSENT && unpriv && c.s.chance(30)) { chmod(c.dir.c_str(), 0555); nodirWrite = true; }
  if (k == LONGNAME && name.size() > 1019) bad = true; if (!bad && name.size() <= 1017 && c.s.chance(12)) name = "\"" + name + "\"";
  bool canRead = mode < 0 || !unpriv || (mode & 0400), canWrite = mode < 0 || !unpriv || (mode & 0200); if (getuid() == 0) canRead = canWrite = true;
  bool zdss = content.compare(0, 4, "ZDSS") == 0; char ver = content.size() > 16 ? content[16] : 0;
  c.note("%s file of %zu bytes, version character %d, mode %o%s%s; name \"%s\"", kname[k], content.size(), ver, mode, unpriv ? ", unprivileged" : "", linked ? ", through a link" : "", name.size() < 300 ? name.c_str() : "<long>"); c.label("file: %s", kname[k]);
  if (k == V7 || k == TRUNC || k == DAMAGED || k == V6 || mode >= 0 || content.size() < 40) c.nontrivial();
  auto before = tree(c.dir); int fds = countFds();
  // the version query
  auto version = [&](const char *when, int want, bool negative) { int v = c.s.chance(50) ? zgetFileVersion(name.c_str()) : hec_dss_getFileVersion(name.c_str()); if (negative ? v >= 0 : v != want) c.fail("%s: zgetFileVersion(\"%s\") gave %d for %s file of %zu bytes, expected %s%d", when, name.c_str(), v, kname[k], content.size(), negative ? "a negative code, such as " : "", want); S x = treeDiff(before, tree(c.dir)); if (!x.empty()) c.fail("%s: asking for the version changed the directory: %s", when, x.c_str()); };
  bool exists = file && !content.empty();
  if (k == LONGNAME) { int v = zgetFileVersion(name.c_str()); if (v > 0 || (bad && v != -2)) c.fail("zgetFileVersion of a name of %zu characters gave %d", name.size(), v); }
  else if (k == DIRECTORY) version("before opening", -1, true);
  else if (!exists) version("before opening", 0, false);
  else if (!canRead) version("before opening", -3, true);
  else if (!zdss) version("before opening", -1, false);
  else if (content.size() < 17) version("before opening", -1, false);
  else if (content.size() < 32 && strchr("5678", ver)) { int v = zgetFileVersion(name.c_str()); if (v != -1 && v != ver - '0') c.fail("zgetFileVersion gave %d for a file cut after %zu bytes", v, content.size()); }
  else if (ver && strchr("5678", ver)) version("before opening", ver - '0', false);
  else version("before opening", -1, false);
  // opening it
  int access = (int)c.s.draw(5); if (k == V7 && access == 4 && c.s.chance(50)) access = 0; bool plain = access == 0 && c.s.chance(50), api = plain && c.s.chance(40); Dss d; dss_file *h = 0; int st; static char area[4096];
  memset(d.ifltab, c.s.chance(50) ? 0 : 0, sizeof d.ifltab);
  if (api) st = hec_dss_open(name.c_str(), &h); else if (plain) { st = hec_dss_zopen(d.ifltab, name.c_str()); d.open = st == 0; } else st = d.openFile(name, access);
  S how = api ? S("hec_dss_open") : plain ? S("hec_dss_zopen") : fmt("zopenExtended with access %d", access); c.note("%s gave %d", how.c_str(), st);
  bool mayOpen = (k == TRUNC || k == DAMAGED) && zdss && ver == '7' && content.size() >= 32 && canRead; int want = -1; bool refuse = false, create = false; // want: documented error number
  if (k == V7) { if (!canRead) refuse = true, want = canWrite ? -2 : 10; else if (access == 4 && !canWrite) want = -2; }
  else if (k == NODIR) refuse = true, want = access == 1 ? 9 : access == 4 ? 5 : 8; else if (k == LONGNAME) refuse = true; else if (k == DIRECTORY) refuse = true;
  else if (!exists) { if (access == 1) refuse = true, want = mode >= 0 && !canRead ? -2 : 9; else if (nodirWrite && getuid()) refuse = true, want = access == 4 ? 5 : 8; else if (!canWrite || !canRead) refuse = true; else create = true; }
  else if (!canRead) refuse = true, want = canWrite ? -2 : 10;
  else if (!zdss && content.size() >= 32) refuse = true, want = 12; else if (content.size() >= 32 && (ver == '6' || ver == '8')) refuse = true, want = 2;
  else if (!mayOpen) refuse = true;
  if (refuse) {
    if (st >= 0) c.fail("%s of %s file (%zu bytes) gave %d and not an error", how.c_str(), kname[k], content.size(), st);
    if (want >= 0 && errNumber(st) != want) c.fail("%s of %s file (%zu bytes) gave %d, error number %d; the documented one is %d", how.c_str(), kname[k], content.size(), st, errNumber(st), want);
  } else if (!mayOpen && st) c.fail("%s of %s file (%zu bytes, mode %o) gave %d", how.c_str(), kname[k], content.size(), mode, st);
  if (st == 0) { c.label(create ? "created" : "opened"); long long *t = api ? *(long long(*)[1])(void *)h : d.ifltab;
    if (zgetVersion(t) != 7) c.fail("the opened file reports version %d", zgetVersion(t));
    { bool ro = access == 1 || !canWrite; char b[600] = "", n[4096] = ""; int num = -1; zinquireChar(t, "read", b, sizeof b, &num); if (num != ro || S(b) != (ro ? "ON" : "OFF")) c.fail("%s of %s file (mode %o): read-only is inquired as %d \"%s\"", how.c_str(), kname[k], mode, num, b); long long zr = zinquire(t, "read"); if (zr != (ro ? 1 : 2)) c.fail("%s of %s file (mode %o): zinquire read gives %lld", how.c_str(), kname[k], mode, zr);
      zinquireChar(t, "name", n, sizeof n, &num); struct stat s1, s2; if (stat(n, &s1) || stat(real.c_str(), &s2) || s1.st_ino != s2.st_ino || s1.st_dev != s2.st_dev) c.fail("%s of %s file: the name is inquired as \"%s\", not \"%s\"", how.c_str(), kname[k], n, real.c_str()); }
    if (create) { if (zinquire(t, "nrec") != 0) c.fail("a new file reports %lld records", (long long)zinquire(t, "nrec")); if (zgetFileVersion(name.c_str()) != 7) c.fail("a new file has version %d", zgetFileVersion(name.c_str())); struct stat b; if (stat(k == DANGLING ? (c.dir + "/target.dss").c_str() : real.c_str(), &b)) c.fail("the new file is not at \"%s\"", real.c_str()); S x = treeDiff(before, tree(c.dir), k == DANGLING ? "target.dss" : linked ? "pointed-to" : real.substr(real.rfind('/') + 1)); if (!x.empty()) c.fail("creating a file: %s", x.c_str()); }
    if (k == V7 && !api) { Snap s = snapshot(c, d, "after opening"); S x = snapsDiff(snap, s); if (!x.empty()) c.fail("opening a version 7 file: %s", x.c_str()); S desc; bool ro = access == 1 || !canWrite; int w = mixStore(c, d, MK_TEXT, "/New/one////x/", desc, false); if (ro ? w == 0 : w != 0) c.fail("storing in a file opened with access %d (mode %o) gave %d", access, mode, w); }
    if (create && !api && c.s.chance(50)) { S p = "/New/one////x/", desc; int w = mixStore(c, d, (int)c.s.draw(MK_N - 1), p = mixPath(MK_TEXT, 0, 0), desc, false); (void)w; }
    bool readonly = access == 1 || !canWrite;
    if (mayOpen && !api) { for (auto &e : snap) { RawRec r; int q = rawRead(d, e.second.name, r); if (q == 0) { S x = recDiff(e.second.r, r); if (!x.empty()) c.fail("file cut after %zu bytes: \"%s\" reads with status 0 but %s", content.size(), e.second.name.c_str(), x.c_str()); } } if (k == TRUNC) c.label("truncated file opened"); }
    st = api ? hec_dss_close(h) : d.close(); if (st && !mayOpen) c.fail("closing gave %d", st);
    if (readonly) { S x = treeDiff(before, tree(c.dir)); if (!x.empty()) c.fail("opening for read only, then closing: %s", x.c_str()); }
    before = tree(c.dir); if (k == V7 && !api && c.s.chance(50)) version("after closing", 7, !canRead) ;
  } else {
    c.label("refused"); S x = treeDiff(before, tree(c.dir)); if (!x.empty()) c.fail("%s of %s file was refused (%d), but %s", how.c_str(), kname[k], st, x.c_str());
    if (countFds() != fds) c.fail("%s was refused (%d) but leaves the file open", how.c_str(), st);
    // the refused handle and other files stay usable
    int next = (int)c.s.draw(4); if (nodirWrite) chmod(c.dir.c_str(), 0755);
    if (!api && (next & 1)) { Dss e; int q = e.openFile(c.dir + "/other.dss"); if (q) c.fail("after a refused open, opening another file gave %d", q); S desc; if (c.s.chance(70)) { int q1 = zclose(d.ifltab); c.note("closing the refused handle gave %d", q1); } int w = mixStore(c, e, MK_TEXT, "/New/one////x/", desc, false); if (w) c.fail("after closing a refused handle, storing in another file gave %d", w); if ((w = e.close())) c.fail("after closing a refused handle, closing another file gave %d", w); }
    if (!api && (next & 2)) { zStructTransfer *z = zstructTransferNew("/A/B////F/", 1); int q = zread(d.ifltab, z); if (q >= 0) c.fail("reading through a handle that was refused gave %d", q); zstructFree(z); q = zcheck(d.ifltab, "/A/B////F/"); if (q == 0) c.fail("zcheck through a handle that was refused gave %d", q); }
    if (!api) { int q = d.openFile(c.dir + "/third.dss"); if (q) c.fail("the refused handle cannot be used for another file: %d", q); S desc; q = mixStore(c, d, MK_TEXT, "/New/one////x/", desc, false); if (q) c.fail("storing with a formerly refused handle gave %d", q); d.close(); }
  }
  (void)area;
}

void readonly(Case &c) {
  messages(c); deepen(c); 
  bool unpriv = c.s.chance(40); if (unpriv) unprivileged(c); if (getuid() == 0) unpriv = false;
  S f = c.dir + "/protected.dss"; int hash, bin; genConfig(c, hash, bin); int reclaim = c.s.pick({1, 1, 2, 3}); Snap snap;
  { Dss d; int st = d.openFile(f, 0, hash, bin); if (st) c.fail("creating gave %d", st); mixPopulate(c, d, 2 + (int)c.s.draw(14), 2, c.s.chance(20), reclaim); snap = snapshot(c, d, "after populating"); if ((st = d.close())) c.fail("closing gave %d", st); }
  int access = 1; if (unpriv) { chmod(f.c_str(), c.s.pick({0444, 0400})); access = c.s.pick({0, 1, 2, 3}); } else if (c.s.chance(30)) chmod(f.c_str(), 0444);
  auto before = tree(c.dir); Dss d; int st = d.openFile(f, access); if (st) c.fail("opening for read only (access %d%s) gave %d", access, unpriv ? ", no write permission" : "", st);
  Dss src; if (c.s.chance(30)) { src.openFile(c.dir + "/source.dss"); S desc; mixStore(c, src, MK_TEXT, "/Copy/me////t/", desc, false); before = tree(c.dir); }
  auto same = [&](const char *what) { auto t = tree(c.dir); if (src.open) { t.erase("source.dss"); auto b = before; b.erase("source.dss"); S x = treeDiff(b, t); if (!x.empty()) c.fail("%s through a read-only handle (access %d): %s", what, access, x.c_str()); } else { S x = treeDiff(before, t); if (!x.empty()) c.fail("%s through a read-only handle (access %d): %s", what, access, x.c_str()); } };
  same("opening"); int n = 1 + (int)c.s.draw(12); std::vector<S> names; for (auto &e : snap) names.push_back(e.second.name); bool squeezed = false;
  for (int i = 0; i < n; i++) {
    int op = (int)c.s.weighted({30, 10, 8, 6, 6, 6, 5, 5, 5, 8, 8, 5, 4, 4}); S p = names.size() && c.s.chance(80) ? names[c.s.draw(names.size())] : S("/No/such////record/"), q = "/New/name////x/", what; int must = 0, r = 0; auto it = snap.find(up(p)); bool there = it != snap.end(); int type = there ? it->second.type : 0;
    switch (op) {
    case 0: { int k = (int)c.s.draw(MK_N); S path = mixPath(k, (int)c.s.draw(2), (int)c.s.draw(3)), desc; what = fmt("storing %s \"%s\"", mixName(k), path.c_str()); c.note("%s", what.c_str()); r = mixStore(c, d, k, path, desc, c.s.chance(20)); must = 1; break; }
    case 1: what = "deleting \"" + p + "\""; r = zdelete(d.ifltab, p.c_str()); must = 1; break;
    case 2: what = "renaming \"" + p + "\""; r = zrename(d.ifltab, p.c_str(), q.c_str()); must = 1; break;
    case 3: what = "undeleting"; r = c.s.chance(50) ? zundelete(d.ifltab, p.c_str()) : zundeleteAll(d.ifltab); break;
    case 4: what = "duplicating \"" + p + "\""; r = zduplicateRecord(d.ifltab, p.c_str(), q.c_str()); must = 1; break;
    case 5: { bool add = c.s.chance(60); what = add ? "adding an alias of \"" + p + "\"" : "removing aliases of \"" + p + "\""; r = add ? zaliasAdd(d.ifltab, p.c_str(), q.c_str()) : c.s.chance(50) ? zaliasRemove(d.ifltab, p.c_str()) : zaliasRemoveAll(d.ifltab, p.c_str()); must = add; if (!add && r > 0) c.fail("removing aliases through a read-only handle reported %d", r); break; }
    case 6: what = "deleting a location"; r = zlocationDelete(d.ifltab, p.c_str()); must = there && type == DATA_TYPE_LOCATION; break;
    case 7: what = "writing raw data"; { RawRec w = genRec(c, 300, 50); r = rawWrite(d, c.s.chance(50) ? S("/Raw/x////y/") : p, w); must = 1; } break;
    case 8: { const char *k = c.s.pick({"reclaim", "multi", "close", "write", "save", "flush", "tole"}); what = fmt("zsetFile \"%s\"", k); r = zsetFile(d.ifltab, (char *)k, "", (int)c.s.draw(5)); break; }
    case 9: { what = "squeezing"; squeezed = true; r = zsqueeze7(d.ifltab, (int)c.s.draw(2), (int)c.s.draw(2)); break; }
    case 10: { what = "copying from another file"; if (src.open) { r = zcopyFile(src.ifltab, d.ifltab, REC_STATUS_ANY); must = 1; } else { what = "the catalogue"; zStructCatalog *cat = zstructCatalogNew(); r = zcatalog(d.ifltab, 0, cat, (int)c.s.draw(2)); if (r != (int)snap.size()) c.fail("the catalogue of a read-only file has %d names, expected %zu", r, snap.size()); r = 0; zstructFree(cat); } break; }
    case 11: { what = "checking the file"; r = c.s.chance(50) ? zcheckFile(d.ifltab) : zcheckLinks(d.ifltab); if (r) c.fail("%s through a read-only handle gave %d", what.c_str(), r); break; }
    case 12: { what = "reading an aliased or missing record"; RawRec w; r = rawRead(d, p, w); if (there ? r != 0 : r == 0) c.fail("reading \"%s\" read-only gave %d", p.c_str(), r); r = 0; break; }
    case 13: { what = "reopening"; d.close(); same("closing"); r = d.openFile(f, access); if (r) c.fail("opening again for read only gave %d", r); break; }
    }
    if (op) c.note("%s", what.c_str()); c.label("tried: %s", what.substr(0, what.find(' ')).c_str()); c.note("  gave %d", r);
    same(what.c_str()); if (must && r == 0) c.fail("%s through a read-only handle (access %d) reports success", what.c_str(), access);
    if (!d.open || d.ifltab[0] == 0) { if (!squeezed) c.fail("%s closed the read-only handle", what.c_str()); int q2 = d.openFile(f, access); if (q2) c.fail("reopening for read only gave %d", q2); }
  }
  c.nontrivial(); Snap s = snapshot(c, d, "read-only at the end"); S x = snapsDiff(snap, s); if (!x.empty()) c.fail("read-only handle at the end: %s", x.c_str()); same("reading everything"); st = d.close(); if (st) c.fail("closing a read-only handle gave %d", st); same("closing"); if (src.open) src.close();
}

void run(Case &c) { quiet(); gSleepDivisor = 1000; if (c.s.chance(60)) recognise(c); else readonly(c); }
eng::Reg r({"C18", "the file exists with content of interest (version 6/7, truncated, damaged, under 40 bytes) or a permission was taken away, or operations were tried on a read-only handle", run, 3000, 60000, "exploration", {"zero-length files count as not existing, as documented", "file permissions are judged in an unprivileged child process"}});
}
