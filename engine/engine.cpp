#include "engine.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fstream>
#include <sstream>

namespace eng {

static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void registerProp(const Prop &p) { props().push_back(p); }

std::string fmt(const char *f, ...) {
  char buf[8192]; va_list a; va_start(a, f); int n = vsnprintf(buf, sizeof buf, f, a); va_end(a);
  if (n < 0) return "";
  if ((size_t)n < sizeof buf) return std::string(buf, n);
  return std::string(buf, sizeof buf - 1);
}

// ---------------------------------------------------------------- Src
static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void Src::seed(uint64_t s) { for (auto &x : st) x = splitmix(s); pos = 0; }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Src::next() { uint64_t r = rotl(st[1] * 5, 7) * 9, t = st[1] << 17; st[2] ^= st[0]; st[3] ^= st[1]; st[1] ^= st[2]; st[0] ^= st[3]; st[2] ^= t; st[3] = rotl(st[3], 45); return r; }
uint64_t Src::draw(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v;
  if (rep) { v = rpos < rep->size() ? (*rep)[rpos] : 0; rpos++; return v >= n ? n - 1 : v; }
  if (tape) { v = pos < tape->size() ? (*tape)[pos] : 0; if (v >= n) v = n - 1; }
  else v = (uint64_t)(((__uint128_t)next() * n) >> 64);
  pos++;
  if (shmRec && *shmLen < shmCap) { shmRec[*shmLen] = v; *shmLen = *shmLen + 1; }
  if (cap) cap->push_back(v);
  return v;
}
int64_t Src::range(int64_t lo, int64_t hi) { if (hi <= lo) return lo; return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
bool Src::chance(int percent) { return draw(100) >= (uint64_t)(100 - percent); }
size_t Src::weighted(const std::vector<int> &w) {
  uint64_t tot = 0; for (int x : w) tot += x;
  uint64_t v = draw(tot);
  for (size_t i = 0; i < w.size(); i++) { if (v < (uint64_t)w[i]) return i; v -= w[i]; }
  return w.size() - 1;
}
int64_t Src::size(int64_t max) {
  switch (draw(4)) {
    case 0: return range(0, std::min<int64_t>(max, 3));
    case 1: return range(0, std::min<int64_t>(max, 17));
    case 2: return range(0, std::min<int64_t>(max, 140));
    default: return range(0, max);
  }
}
std::string Src::text(size_t len, const char *alphabet) { std::string r; size_t n = strlen(alphabet); for (size_t i = 0; i < len; i++) r += alphabet[draw(n)]; return r; }

// ---------------------------------------------------------------- shared memory
static const size_t NOTECAP = 1 << 18, TAPECAP = 1 << 17, LABCAP = 1 << 14;
struct Shm {
  volatile int status;           // 0 running, 1 pass, 2 fail
  volatile int nontriv;
  volatile int racy;
  volatile uint64_t evals;
  char msg[16384];
  volatile uint64_t noteLen; char note[NOTECAP];
  volatile uint64_t labLen; char lab[LABCAP];
  volatile uint64_t tapeLen; uint64_t tape[TAPECAP];
};
static Shm *shm = nullptr;

void Case::fail(const char *f, ...) {
  char buf[16000]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
  throw Failure{buf};
}
void Case::note(const char *f, ...) {
  char buf[8192]; va_list a; va_start(a, f); int n = vsnprintf(buf, sizeof buf, f, a); va_end(a);
  if (n < 0) return; if ((size_t)n >= sizeof buf) n = sizeof buf - 1;
  if (shm->noteLen + n + 2 < NOTECAP) { memcpy(shm->note + shm->noteLen, buf, n); shm->note[shm->noteLen + n] = '\n'; shm->noteLen = shm->noteLen + n + 1; }
}
void Case::label(const char *f, ...) {
  char buf[256]; va_list a; va_start(a, f); int n = vsnprintf(buf, sizeof buf, f, a); va_end(a);
  if (n < 0) return; if ((size_t)n >= sizeof buf) n = sizeof buf - 1;
  if (shm->labLen + n + 2 < LABCAP) { memcpy(shm->lab + shm->labLen, buf, n); shm->lab[shm->labLen + n] = '\n'; shm->labLen = shm->labLen + n + 1; }
}
void Case::known(const char *key) { label("known:%s", key); }
static std::set<std::string> listedFindings;   // keys listed for this property in the known-findings file
bool Case::isKnown(const char *key) { if (!listedFindings.count(key)) return false; known(key); return true; }
struct EndCase {};
void Case::finding(const char *key, const char *f, ...) {
  char buf[16000]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
  if (isKnown(key)) throw EndCase{};
  throw Failure{std::string(buf) + " [" + key + "]"};
}
static void loadFindings(const std::string &file, const std::string &id) {
  std::ifstream f(file); std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 9, "finding: ")) continue;
    if (l.find("property=" + id + " ") == std::string::npos) continue;
    size_t k = l.find("key="); if (k == std::string::npos) continue;
    listedFindings.insert(l.substr(k + 4, l.find(' ', k) - k - 4));
  }
}
void Case::nontrivial() { shm->nontriv = 1; }
void Case::racy() { shm->racy = 1; }
void Case::evals(uint64_t n) { shm->evals = n; }

static void wipe(const std::string &d, bool self) {
  DIR *dp = opendir(d.c_str()); if (!dp) return;
  while (dirent *e = readdir(dp)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat sb;
    if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) { chmod(p.c_str(), 0700); wipe(p, true); } else unlink(p.c_str());
  }
  closedir(dp);
  if (self) rmdir(d.c_str());
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { int kind = 0; /*0 pass 1 oracle 2 crash 3 hang*/ std::string msg, sig; };
static std::string readFile(const std::string &p, size_t cap = 1 << 16) { std::ifstream f(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {}); if (s.size() > cap) s.resize(cap); return s; }

static std::string crashSig(const std::string &err, int st) {
  std::string what; size_t p;
  if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) { what = err.substr(p + 25); what = what.substr(0, what.find_first_of(" \n")); }
  else if ((p = err.find("runtime error: ")) != std::string::npos) { what = err.substr(p, 80); what = what.substr(0, what.find('\n')); }
  else if (WIFSIGNALED(st)) what = fmt("signal %d", WTERMSIG(st));
  else what = fmt("exit %d", WEXITSTATUS(st));
  // first frame that lies in the library
  std::string frame; size_t q = 0;
  while ((q = err.find("\n    #", q)) != std::string::npos) {
    size_t e = err.find('\n', q + 1); std::string l = err.substr(q + 1, e - q - 1); q++;
    if (l.find("/heclib/") != std::string::npos) { size_t i = l.find(" in "); if (i != std::string::npos) { frame = l.substr(i + 4); size_t sl = frame.rfind('/'); size_t sp = frame.find(' '); if (sl != std::string::npos && sp != std::string::npos) frame = frame.substr(0, sp) + " " + frame.substr(sl + 1); } break; }
  }
  return what + (frame.empty() ? "" : " in " + frame);
}

// Runs one case in a child process; the library's global state is fresh each time.
static Outcome runCase(const Prop &p, const std::string &wdir, uint64_t seed, const std::vector<uint64_t> *tape, int tier, int cpuLimit) {
  std::string cdir = wdir + "/c", err = wdir + "/err";
  wipe(cdir, true); mkdir(cdir.c_str(), 0700); 
  shm->status = 0; shm->nontriv = 0; shm->racy = 0; shm->evals = 1; shm->msg[0] = 0; shm->noteLen = 0; shm->labLen = 0; shm->tapeLen = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    setpgid(0, 0);
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
    fd = open("/dev/null", O_RDWR); if (!getenv("HECV_MLVL")) dup2(fd, 1); dup2(fd, 0); close(fd);
    struct rlimit rl; rl.rlim_cur = cpuLimit; rl.rlim_max = cpuLimit + 2; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 4ULL << 30; setrlimit(RLIMIT_FSIZE, &rl);
    alarm(cpuLimit * 4);
    if (chdir(cdir.c_str())) _exit(99);
    Src s; if (tape) s.setTape(tape); else s.seed(seed);
    s.shmRec = shm->tape; s.shmCap = TAPECAP; s.shmLen = &shm->tapeLen;
    Case c(s); c.dir = cdir; c.tier = tier;
    try { p.run(c); shm->status = 1; }
    catch (EndCase &) { shm->status = 1; }
    catch (Failure &f) { snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str()); shm->status = 2; }
    _exit(0);
  }
  setpgid(pid, pid);
  int st; double t0 = now(); bool wallKill = false;
  for (int spin = 0;; spin++) {
    pid_t r = waitpid(pid, &st, spin < 20000 ? 0 : 0);
    if (r == pid || (r < 0 && errno != EINTR)) break;
    (void)t0;
  }
  kill(-pid, SIGKILL);
  Outcome o;
  if (shm->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) o.kind = 0;
  else if (shm->status == 2) { o.kind = 1; o.msg = shm->msg; o.sig = "oracle"; }
  else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) { o.kind = 3; o.msg = fmt("case did not finish within %d CPU seconds (signal %d)", cpuLimit, WTERMSIG(st)); o.sig = "hang"; }
  else { std::string e = readFile(err); o.kind = 2; o.sig = crashSig(e, st); o.msg = "crash: " + o.sig + "\n" + e.substr(0, 6000); }
  (void)wallKill;
  return o;
}

static uint64_t hash64(const void *d, size_t n, uint64_t h = 1469598103934665603ULL) { const unsigned char *p = (const unsigned char *)d; for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; } return h; }

static std::vector<uint64_t> curTape() { return std::vector<uint64_t>(shm->tape, shm->tape + shm->tapeLen); }

static std::string jesc(const std::string &s) {
  std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r + "\"";
}

struct WorkerResult { uint64_t cases = 0, evals = 0; std::set<uint64_t> nontriv; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; bool failed = false; std::vector<uint64_t> tape; uint64_t failCase = 0; std::string sig; bool budget = false; bool racy = false; };

static void saveWorker(const WorkerResult &r, const std::string &path) {
  std::ofstream f(path, std::ios::binary);
  f << r.cases << ' ' << r.evals << ' ' << r.failed << ' ' << r.failCase << ' ' << r.budget << ' ' << r.racy << '\n';
  f << r.nontriv.size(); for (auto h : r.nontriv) f << ' ' << h; f << '\n';
  f << r.labels.size() << '\n'; for (auto &l : r.labels) f << l.second << ' ' << l.first << '\n';
  f << r.samples.size() << '\n'; for (auto &s : r.samples) { f << s.size() << '\n' << s << '\n'; }
  f << r.tape.size(); for (auto v : r.tape) f << ' ' << v; f << '\n';
  f << r.sig << '\n';
}
static bool loadWorker(WorkerResult &r, const std::string &path) {
  std::ifstream f(path, std::ios::binary); if (!f) return false;
  size_t n; f >> r.cases >> r.evals >> r.failed >> r.failCase >> r.budget >> r.racy;
  f >> n; for (size_t i = 0; i < n; i++) { uint64_t h; f >> h; r.nontriv.insert(h); }
  f >> n; f.ignore(1); for (size_t i = 0; i < n; i++) { uint64_t c; f >> c; f.ignore(1); std::string l; std::getline(f, l); r.labels[l] += c; }
  f >> n; f.ignore(1); for (size_t i = 0; i < n; i++) { size_t k; f >> k; f.ignore(1); std::string s(k, 0); f.read(&s[0], k); f.ignore(1); r.samples.push_back(s); }
  f >> n; for (size_t i = 0; i < n; i++) { uint64_t v; f >> v; r.tape.push_back(v); }
  f.ignore(1); std::getline(f, r.sig);
  return true;
}

static std::vector<uint64_t> shrink(const Prop &p, const std::string &wdir, std::vector<uint64_t> best, int kind, int tier, double budget, int cpuLimit) {
  double end = now() + budget; int attempts = 0;
  auto tryTape = [&](const std::vector<uint64_t> &t) {
    attempts++;
    Outcome o = runCase(p, wdir, 0, &t, tier, cpuLimit);
    if (o.kind == kind) { auto c = curTape(); // drop unused tail
      if (c.size() < t.size() || (c.size() == t.size() && c <= t)) { best = c.size() <= t.size() ? c : t; return true; }
      best = t; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size() && now() < end;) {
        std::vector<uint64_t> t(best); t.erase(t.begin() + i, t.begin() + i + chunk);
        if (tryTape(t)) { progress = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t chunk = 16; chunk >= 1 && now() < end; chunk /= 4) {
      for (size_t i = 0; i < best.size() && now() < end; i += chunk) {
        bool nz = false; for (size_t j = i; j < std::min(best.size(), i + chunk); j++) if (best[j]) nz = true;
        if (!nz) continue;
        std::vector<uint64_t> t(best); for (size_t j = i; j < std::min(best.size(), i + chunk); j++) t[j] = 0;
        if (t < best && tryTape(t)) progress = true;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      uint64_t lo = 0, hi = best[i];
      while (lo < hi && now() < end) { uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> t(best); if (i >= t.size()) break; t[i] = mid; size_t before = best.size(); if (tryTape(t)) { hi = mid; progress = true; if (best.size() != before || i >= best.size()) break; } else lo = mid + 1; }
    }
  }
  return best;
}

static void writeTape(const std::string &path, const Prop &p, const std::vector<uint64_t> &t, const std::string &desc, int tier) {
  std::ofstream f(path); f << "property " << p.id << "\ntier " << tier << "\ntape " << t.size(); for (auto v : t) f << ' ' << v; f << "\n---\n" << desc << "\n";
}

} // namespace eng
using namespace eng;

static void wipeAtExit(const std::string &scratch) { wipe(scratch, true); }

int main(int argc, char **argv) {
  std::string knownFile = "known_findings.txt", id, out, replayDir = "out/replays", replay, only;
  uint64_t seed = 1; int tier = 0, workers = 8; double budget = 0; long cases = 0; std::string scratchBase = "/dev/shm"; bool trace = false; long oneCase = -1; int extraBudgetOk = 1; (void)extraBudgetOk;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") tier = nx() == "thorough";
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--cases") cases = atol(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--replays") replayDir = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--scratch") scratchBase = nx();
    else if (a == "--case") oneCase = atol(nx().c_str());
    else if (a == "--known") knownFile = nx();
    else if (a == "--trace") trace = true;
    else if (a == "--list") { for (auto &p : props()) printf("%s\n", p.id); return 0; }
    else id = a;
  }
  if (access(scratchBase.c_str(), W_OK)) scratchBase = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp";
  const Prop *prop = nullptr; for (auto &p : props()) if (id == p.id) prop = &p;
  if (!prop) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  loadFindings(knownFile, id);
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string scratch = fmt("%s/hecv-%s-%d", scratchBase.c_str(), id.c_str(), (int)getpid());
  mkdir(scratch.c_str(), 0700);
  const int CPU = 60;
  auto show = [&](const Outcome &o) {
    printf("outcome kind=%d\n%s\n--- case (%lu draws):\n%.*s\n--- labels:\n%.*s\n", o.kind, o.msg.c_str(), (unsigned long)shm->tapeLen, (int)shm->noteLen, shm->note, (int)shm->labLen, shm->lab);
  };
  if (!replay.empty()) {
    std::ifstream f(replay); std::string w; std::vector<uint64_t> t; size_t n = 0; int tr = 0;
    while (f >> w) { if (w == "tier") f >> tr; if (w == "tape") { f >> n; for (size_t i = 0; i < n; i++) { uint64_t v; f >> v; t.push_back(v); } break; } }
    std::string wd = scratch + "/w0"; mkdir(wd.c_str(), 0700);
    Outcome o = runCase(*prop, wd, 0, &t, tr, CPU); for (int i = 0; i < 300 && !o.kind && shm->racy; i++) o = runCase(*prop, wd, 0, &t, tr, CPU); show(o); wipeAtExit(scratch);
    if (o.kind) { printf("VIOLATION property=%s replay=%s\n", prop->id, replay.c_str()); return 1; }
    return 0;
  }
  double t0 = now();
  long total = cases ? cases : (tier ? prop->thoroughCases : prop->quickCases);
  if (budget <= 0) budget = tier ? 600 : 150;
  auto caseSeed = [&](long k) { uint64_t x = seed * 0x9E3779B97F4A7C15ULL + hash64(prop->id, strlen(prop->id)); uint64_t a = splitmix(x); x = a ^ (uint64_t)k * 0xD1B54A32D192ED03ULL; return splitmix(x); };
  if (oneCase >= 0) { std::string wd = scratch + "/w0"; mkdir(wd.c_str(), 0700); Outcome o = runCase(*prop, wd, caseSeed(oneCase), nullptr, tier, CPU); show(o); wipeAtExit(scratch); return o.kind ? 1 : 0; }
  // one shared flag: the lowest failing case number so far, so that the reported failure is deterministic
  volatile long *lowest = (volatile long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *lowest = total;
  std::vector<pid_t> kids;
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::string wd = scratch + fmt("/w%d", w); mkdir(wd.c_str(), 0700);
      WorkerResult r;
      for (long k = w; k < total && k < *lowest; k += workers) {
        if (now() - t0 > budget) { r.budget = true; break; }
        Outcome o = runCase(*prop, wd, caseSeed(k), nullptr, tier, CPU);
        r.cases++; r.evals += shm->evals;
        if (trace) printf("case %ld kind %d draws %lu\n", k, o.kind, (unsigned long)shm->tapeLen);
        size_t i = 0; std::string labs((char *)shm->lab, shm->labLen); std::set<std::string> seen;
        while (i < labs.size()) { size_t e = labs.find('\n', i); std::string l = labs.substr(i, e - i); if (seen.insert(l).second) r.labels[l]++; i = e + 1; }
        if (shm->nontriv) { auto t = curTape(); r.nontriv.insert(hash64(t.data(), t.size() * 8)); if (r.samples.size() < 2) r.samples.push_back(std::string(shm->note, std::min<uint64_t>((uint64_t)shm->noteLen, 1500))); }
        if (!o.kind) continue;
        if (getenv("HECV_FIRST")) fprintf(stderr, "case %ld: %s\n%.*s\n", (long)k, o.msg.c_str(), (int)shm->noteLen, shm->note);
        // a failure counts once fresh runs of the same case fail again: all of three, or, for a case that
        // races real processes, any one of many
        bool racy = shm->racy; std::vector<uint64_t> tape = curTape(); int fails = 0; double t1 = now();
        for (int i = 0; i < 3; i++) { Outcome q = runCase(*prop, wd, caseSeed(k), nullptr, tier, CPU); if (q.kind) fails++; else break; }
        if (fails == 3) racy = false; // deterministic after all
        for (int i = 0; racy && i < 150 && !fails && now() - t1 < 25; i++) { Outcome q = runCase(*prop, wd, caseSeed(k), nullptr, tier, CPU); if (q.kind) fails++; }
        bool first = !r.racy; r.racy |= racy;
        if ((racy && fails) || fails == 3 || (racy && !first)) { r.failed = true; r.failCase = k; r.tape = tape; r.sig = o.msg.substr(0, 300); std::replace(r.sig.begin(), r.sig.end(), '\n', ' '); if (k < *lowest) *lowest = k; break; }
        if (racy) { r.failCase = k; r.tape = tape; r.sig = o.msg.substr(0, 300); std::replace(r.sig.begin(), r.sig.end(), '\n', ' '); }
        r.labels["unreproduced-failure"]++;
        if (r.labels["unreproduced-failure"] > 4) break;
      }
      saveWorker(r, scratch + fmt("/r%d", w)); wipe(wd, true); _exit(0);
    }
    kids.push_back(pid);
  }
  int bad = 0; for (auto k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  WorkerResult all; int races = 0; bool failRacy = false; std::string failSig; const long none = -1; long failCase = none; std::vector<uint64_t> failTape;
  for (int w = 0; w < workers; w++) {
    WorkerResult r; if (!loadWorker(r, scratch + fmt("/r%d", w))) { bad++; continue; }
    all.cases += r.cases; all.evals += r.evals; all.nontriv.insert(r.nontriv.begin(), r.nontriv.end()); for (auto &l : r.labels) all.labels[l.first] += l.second;
    if (all.samples.size() < 3) for (auto &s : r.samples) if (all.samples.size() < 3) all.samples.push_back(s);
    all.budget |= r.budget;
    if (r.failed && (failCase == none || (long)r.failCase < failCase)) { failCase = r.failCase; failTape = r.tape; failRacy = r.racy; failSig = r.sig; }
    if (!r.failed && r.racy) { if (races++ && failCase == none) { failCase = r.failCase; failTape = r.tape; failRacy = true; failSig = r.sig; } }
  }
  if (bad) { fprintf(stderr, "engine: %d workers did not finish\n", bad); wipeAtExit(scratch); return 2; }
  int violations = 0; std::string replayPath;
  if (failCase != none) {
    std::string wd = scratch + "/ws"; mkdir(wd.c_str(), 0700);
    // confirm from the case seed, in fresh processes, three times
    int again = 0, kind = 0; Outcome o;
    for (int i = 0; i < 3 && !failRacy; i++) { o = runCase(*prop, wd, caseSeed(failCase), nullptr, tier, CPU); if (o.kind) { again++; kind = o.kind; failTape = curTape(); } }
    if (failRacy) {
      // already seen twice; the schedule cannot be replayed exactly, so the replay file is run repeatedly
      for (int i = 0; i < 60; i++) { o = runCase(*prop, wd, 0, &failTape, tier, CPU); if (o.kind) break; }
      mkdir("out", 0755); mkdir(replayDir.c_str(), 0755);
      replayPath = replayDir + "/" + prop->id + fmt("-%016lx.tape", (unsigned long)hash64(failTape.data(), failTape.size() * 8));
      std::string desc = failSig + "\n" + (o.kind ? o.msg : "") + "\n" + std::string(shm->note, shm->noteLen);
      writeTape(replayPath, *prop, failTape, desc, tier);
      printf("%s\n", desc.substr(0, 12000).c_str());
      violations = 1;
    } else if (again == 3) {
      std::vector<uint64_t> best = getenv("HECV_FAST") ? failTape : shrink(*prop, wd, failTape, kind, tier, kind == 3 ? 60 : 25, kind == 3 ? 10 : CPU);
      Outcome b; int ok = 0; for (int i = 0; i < 3; i++) { b = runCase(*prop, wd, 0, &best, tier, CPU); if (b.kind) ok++; }
      if (ok < 3) { best = failTape; b = runCase(*prop, wd, 0, &best, tier, CPU); }
      mkdir("out", 0755); mkdir(replayDir.c_str(), 0755);
      replayPath = replayDir + "/" + prop->id + fmt("-%016lx.tape", (unsigned long)hash64(best.data(), best.size() * 8));
      std::string desc = b.msg + "\n" + std::string(shm->note, shm->noteLen);
      writeTape(replayPath, *prop, best, desc, tier);
      printf("%s\n", desc.substr(0, 12000).c_str());
      violations = 1;
    } else {
      printf("case %ld failed once but only %d of 3 replays failed: not reported (%s)\n", failCase, again, failSig.c_str());
      all.labels["unreproduced-failure"]++;
    }
  }
  double wall = now() - t0;
  if (!out.empty()) {
    std::ofstream f(out); f << "{\n \"property\": " << jesc(prop->id) << ",\n \"tier\": \"" << (tier ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": " << jesc(prop->level) << ",\n \"coverage\": {\n  \"evaluations\": " << all.evals << ",\n  \"cases\": " << all.cases << ",\n  \"distinct_nontrivial\": " << all.nontriv.size() << ",\n  \"rule\": " << jesc(prop->rule) << ",\n  \"requested_cases\": " << total << ",\n  \"stopped_by_time_budget\": " << (all.budget ? "true" : "false") << ",\n  \"classes\": {";
    bool first = true; for (auto &l : all.labels) { f << (first ? "\n" : ",\n") << "   " << jesc(l.first) << ": " << l.second; first = false; }
    f << "\n  },\n  \"samples\": ["; first = true; for (auto &s : all.samples) { f << (first ? "\n" : ",\n") << "   " << jesc(s); first = false; }
    f << "\n  ]\n },\n \"assumptions\": ["; first = true; for (auto &s : prop->assumptions) { f << (first ? "\n" : ",\n") << "  " << jesc(s); first = false; }
    f << "\n ],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  }
  printf("%s %s seed=%lu cases=%lu evaluations=%lu nontrivial=%zu wall=%.1fs%s\n", prop->id, tier ? "thorough" : "quick", (unsigned long)seed, (unsigned long)all.cases, (unsigned long)all.evals, all.nontriv.size(), wall, all.budget ? " (time budget reached)" : "");
  for (auto &l : all.labels) if (l.first.compare(0, 6, "known:") == 0) fprintf(stderr, "%s x%lu\n", l.first.c_str(), (unsigned long)l.second);
  wipeAtExit(scratch);
  if (violations) { printf("VIOLATION property=%s replay=%s\n", prop->id, replayPath.c_str()); return 1; }
  return 0;
}
