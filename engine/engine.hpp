// Property-based testing engine: choice-tape generators, forked cases,
// integrated shrinking, evidence.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <cmath>

namespace eng {

struct Failure { std::string msg; };

// Source of choices.  Every random decision of a case comes from here.
class Src {
public:
  // returns a value in [0,n); smaller values are "simpler" (shrinking lowers them)
  uint64_t draw(uint64_t n);
  int64_t range(int64_t lo, int64_t hi);           // inclusive, simplest = lo
  bool chance(int percent);                         // simplest = false
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  template <class T> const T &pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  // index by weights, simplest = 0
  size_t weighted(const std::vector<int> &w);
  // heavy-tailed size in [0,max]
  int64_t size(int64_t max);
  std::string text(size_t len, const char *alphabet);
  // records the following choices / makes the same choices once more
  void capture(std::vector<uint64_t> *to) { cap = to; }
  void again(const std::vector<uint64_t> *from) { rep = from; rpos = 0; }
  // engine side
  void seed(uint64_t s);
  void setTape(const std::vector<uint64_t> *t) { tape = t; }
  std::vector<uint64_t> *rec = nullptr;
  uint64_t *shmRec = nullptr; size_t shmCap = 0; volatile uint64_t *shmLen = nullptr;
private:
  uint64_t st[4] = {1, 2, 3, 4};
  uint64_t next();
  const std::vector<uint64_t> *tape = nullptr, *rep = nullptr; std::vector<uint64_t> *cap = nullptr; size_t rpos = 0;
  size_t pos = 0;
};

struct Case {
  Src &s;
  std::string dir;        // private scratch directory, initially empty
  int tier = 0;           // 0 quick 1 thorough
  Case(Src &src) : s(src) {}
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void nontrivial();                    // this case meets the property's rule
  void racy();                          // this case races real processes: replays may differ
  void evals(uint64_t n);               // a case that contains n evaluations
  void known(const char *key);          // met (and stepped around) a listed finding
  bool isKnown(const char *key);        // is this finding listed?  (labels the case when it is)
  // the case ran into a defect with this key: ends quietly when it is listed, fails when it is not
  [[noreturn]] void finding(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  std::string path(const char *name) { return dir + "/" + name; }
};

struct Prop {
  const char *id;
  const char *rule;
  void (*run)(Case &);
  int quickCases, thoroughCases;
  const char *level;
  std::vector<std::string> assumptions;
};
void registerProp(const Prop &p);
struct Reg { Reg(const Prop &p) { registerProp(p); } };

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

} // namespace eng
