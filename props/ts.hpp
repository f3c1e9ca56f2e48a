// Time series helpers: regular series model and store/retrieve wrappers.
#pragma once
#include "dss.hpp"
#include "rawstore.hpp"
#include "cal.hpp"
#include <cfloat>
using cal::i64;

struct IvName { const char *name; int sec; };
static const std::vector<IvName> &intervals() {
  static const std::vector<IvName> v = {{"1Hour", 3600}, {"1Day", 86400}, {"15Minute", 900}, {"1Minute", 60}, {"1Month", cal::MONTH}, {"6Hour", 21600}, {"1Year", cal::YEAR}, {"1Week", cal::WEEK}, {"Tri-Month", cal::TRI}, {"Semi-Month", cal::SEMI},
    {"12Hour", 43200}, {"8Hour", 28800}, {"4Hour", 14400}, {"3Hour", 10800}, {"2Hour", 7200}, {"30Minute", 1800}, {"20Minute", 1200}, {"12Minute", 720}, {"10Minute", 600}, {"6Minute", 360}, {"5Minute", 300}, {"4Minute", 240}, {"3Minute", 180}, {"2Minute", 120},
    {"30Second", 30}, {"20Second", 20}, {"15Second", 15}, {"10Second", 10}, {"6Second", 6}, {"5Second", 5}, {"4Second", 4}, {"3Second", 3}, {"2Second", 2}, {"1Second", 1}};
  return v;
}
inline bool isMiss(double v) { return v == -(double)FLT_MAX || v == -901.0 || v == -902.0; }
inline double MISS() { return -(double)FLT_MAX; }

// value instants of a regular series with a fixed offset
struct RegTime {
  int iv = 3600; i64 off = 0; int offM = 0, offD = 0; // for yearly data the offset is a calendar date (month, day) and seconds
  i64 at(i64 k) const {
    if (off == 0) return cal::eop(iv, k);
    if (iv == cal::YEAR) return cal::days(k, offM, offD) * cal::DAY + off % cal::DAY + (off % cal::DAY == 0 ? 0 : 0);
    return cal::eop(iv, k - 1) + off;
  }
  i64 slot(i64 T) const { return cal::slotOf(iv, T); }
};
inline RegTime genRegTime(Case &c, int iv) {
  RegTime r; r.iv = iv; if (!c.s.chance(35)) return r;
  if (iv <= cal::WEEK) { if (iv > 1) r.off = iv >= 120 && c.s.chance(75) ? c.s.range(1, iv / 60 - 1) * 60 : c.s.range(1, iv - 1); return r; }
  i64 sec = c.s.pick({0, 3600, 25200, 43200, 86340, 45});
  if (iv == cal::YEAR) { r.offM = c.s.pick({1, 2, 3, 10, 12, 3, 4, 5, 6, 7, 8, 9, 11}); r.offD = c.s.chance(30) ? 1 : (int)c.s.range(1, r.offM == 2 ? 28 : 30); if (sec == 0) sec = 3600; r.off = (cal::days(2001, r.offM, r.offD) - cal::days(2001, 1, 1)) * cal::DAY + sec; return r; }
  int maxd = iv == cal::MONTH ? 27 : iv == cal::SEMI ? 12 : 7; // the last days of a period count as its end
  int d = (int)c.s.range(0, maxd - 1); if (!d && !sec) sec = 60; r.off = d * cal::DAY + sec; return r;
}
inline void splitT(i64 T, int &j, int &s) { j = (int)cal::fdiv(T - 1, cal::DAY); s = (int)(T - (i64)j * cal::DAY); } // seconds 1..86400

// the text of an instant, for years whose text is unambiguous
inline bool dateText(i64 T, std::string &d, std::string &h) {
  int j, s; splitT(T, j, s); i64 y; int m, dd; cal::ymd(j, y, m, dd); if (y < 1000 || y > 9000) return false; static const char *mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  char b[80]; snprintf(b, sizeof b, "%02d%s%04d", dd, mn[m - 1], (int)y); d = b; snprintf(b, sizeof b, s % 60 ? "%02d:%02d:%02d" : s % 7 ? "%02d%02d" : "%02d:%02d", s / 3600, s / 60 % 60, s % 60); h = b; return true;
}
struct TsOut {
  int status = 0; bool dbl = false; std::vector<double> v; std::vector<i64> t; bool haveTimes = false; int nv = 0;
  std::vector<int> q; int qs = 0; std::vector<int> in; int is = 0; std::vector<std::string> cn; bool haveCn = false;
  std::string units, type, tz; std::vector<int> uh; int precision = -1; int interval = 0, offset = 0, dataType = 0; i64 start = 0, end = 0; int gran = 0, base = 0; int sizeEach = 0;
};
struct TsIn {
  std::vector<double> v; bool dbl = false; i64 start = 0; std::vector<i64> times; // times only for irregular (or when giveTimes)
  int flag = 0; std::string units = "CFS", type = "INST-VAL", tz; int precision = -1; std::vector<int> uh;
  std::vector<int> q; int qs = 0; std::vector<int> in; int is = 0; std::vector<std::string> cn; int gran = 0, base = 0; bool clone = false;
};
inline int tsStore(Dss &d, const std::string &path, const TsIn &a) {
  int n = (int)a.v.size();
  std::vector<float> f(a.v.begin(), a.v.end()); std::vector<double> dv = a.v; // exact-size heap copies so that an over-read is seen
  std::string u = a.units, ty = a.type, tz = a.tz, sd, sh; std::vector<int> tm; zStructTimeSeries *t;
  // every other call goes through the constructor for its kind of series, with the date and time as text
  bool ctor = (a.start ^ n) & 1 || (!a.times.empty() && n & 1); if (a.times.empty() && !dateText(a.start, sd, sh)) ctor = false; if (a.base && !a.times.empty()) ctor = false;
  if (!a.times.empty()) { int g = a.gran ? a.gran : 60; for (i64 x : a.times) tm.push_back((int)((x - (i64)a.base * cal::DAY) / g)); }
  if (!ctor) { t = zstructTsNew(path.c_str()); if (a.dbl) t->doubleValues = dv.data(); else t->floatValues = f.data(); t->numberValues = n; t->units = &u[0]; t->type = &ty[0]; }
  else if (a.times.empty()) t = a.dbl ? zstructTsNewRegDoubles(path.c_str(), dv.data(), n, sd.c_str(), sh.c_str(), u.c_str(), ty.c_str()) : zstructTsNewRegFloats(path.c_str(), f.data(), n, sd.c_str(), sh.c_str(), u.c_str(), ty.c_str());
  else t = a.dbl ? zstructTsNewIrregDoubles(path.c_str(), dv.data(), n, tm.data(), a.gran, "", u.c_str(), ty.c_str()) : zstructTsNewIrregFloats(path.c_str(), f.data(), n, tm.data(), a.gran, "", u.c_str(), ty.c_str());
  if (!tz.empty()) t->timeZoneName = &tz[0];
  t->precision = a.precision;
  if (ctor) ; else if (!a.times.empty()) { t->timeGranularitySeconds = a.gran; t->julianBaseDate = a.base; t->times = tm.data(); }
  else { int j, s; splitT(a.start, j, s); t->startJulianDate = j; t->startTimeSeconds = s; }
  std::vector<int> q = a.q, in = a.in, uh = a.uh; std::string cn;
  if (a.qs) { t->quality = q.data(); t->qualityElementSize = a.qs; }
  if (a.is) { t->inotes = in.data(); t->inoteElementSize = a.is; }
  if (!a.cn.empty()) { for (auto &x : a.cn) { cn += x; cn.push_back('\0'); } t->cnotes = &cn[0]; t->cnotesLengthTotal = (int)cn.size(); }
  if (!uh.empty()) { t->userHeader = uh.data(); t->userHeaderNumber = (int)uh.size(); }
  int st; if (a.clone) { bool reg = a.times.empty() && dateText(a.start, sd, sh) && n % 3; if (reg) t->startJulianDate += 17; zStructTimeSeries *k = reg ? zstructTsCloneNewTimes(t, path.c_str(), sd.c_str(), sh.c_str(), "", "") : zstructTsClone(t, path.c_str()); st = k ? ztsStore(d.ifltab, k, a.flag) : -99; if (k) zstructFree(k); } else st = ztsStore(d.ifltab, t, a.flag);
  t->floatValues = 0; t->doubleValues = 0; if (!ctor) t->units = t->type = 0; t->timeZoneName = 0; t->times = 0; t->quality = t->inotes = 0; t->cnotes = 0; if (!t->allocated[zSTRUCT_userHeader]) t->userHeader = 0;
  zstructFree(t);
  return st;
}
struct TsQ { i64 start = 0, end = 0; bool window = false, all = false; int flag = 0, dbl = 0, notes = 0; int gran = 0; int number = 0; int base = 0; };
inline TsOut tsGet(Dss &d, const std::string &path, const TsQ &q) {
  TsOut o; std::string d1, h1, d2, h2; bool ctor = q.window && !q.number && ((uint64_t)(q.start * 31 + q.end) * 0x9E3779B97F4A7C15ull >> 40 & 1) && dateText(q.start, d1, h1) && dateText(q.end, d2, h2);
  zStructTimeSeries *t = ctor ? zstructTsNewTimes(path.c_str(), d1.c_str(), h1.c_str(), d2.c_str(), h2.c_str()) : zstructTsNew(path.c_str());
  if (q.window && !ctor) { int j, s; splitT(q.start, j, s); t->startJulianDate = j; t->startTimeSeconds = s; if (q.number) t->numberValues = q.number; else { splitT(q.end, j, s); t->endJulianDate = j; t->endTimeSeconds = s; } }
  if (q.all) t->boolRetrieveAllTimes = 1;
  t->timeGranularitySeconds = q.gran; if (q.base) t->julianBaseDate = q.base;
  o.status = ztsRetrieve(d.ifltab, t, q.flag, q.dbl, q.notes);
  int n = o.nv = t->numberValues;
  if (o.status == 0 && n > 0) {
    o.dbl = t->doubleValues != 0;
    if (t->floatValues) o.v.assign(t->floatValues, t->floatValues + n); else if (t->doubleValues) o.v.assign(t->doubleValues, t->doubleValues + n);
    o.gran = t->timeGranularitySeconds; o.base = t->julianBaseDate;
    if (t->times) { o.haveTimes = true; int g = o.gran ? o.gran : 60; for (int i = 0; i < n; i++) o.t.push_back((i64)t->times[i] * g + (i64)o.base * cal::DAY); }
    if (t->quality && t->qualityElementSize) { o.qs = t->qualityElementSize; o.q.assign(t->quality, t->quality + (size_t)n * o.qs); }
    if (t->inotes && t->inoteElementSize) { o.is = t->inoteElementSize; o.in.assign(t->inotes, t->inotes + (size_t)n * o.is); }
    if (t->cnotes && t->cnotesLengthTotal > 0) { o.haveCn = true; int p = 0; while (p < t->cnotesLengthTotal && (int)o.cn.size() < n) { std::string x; while (p < t->cnotesLengthTotal && t->cnotes[p]) x.push_back(t->cnotes[p++]); p++; o.cn.push_back(x); } }
    if (t->userHeader && t->userHeaderNumber > 0) o.uh.assign(t->userHeader, t->userHeader + t->userHeaderNumber);
  }
  if (t->units) o.units = t->units; if (t->type) o.type = t->type; if (t->timeZoneName) o.tz = t->timeZoneName;
  o.precision = t->precision; o.interval = t->timeIntervalSeconds; o.offset = t->timeOffsetSeconds; o.dataType = t->dataType; o.sizeEach = t->sizeEachValueRead;
  o.start = (i64)t->startJulianDate * cal::DAY + t->startTimeSeconds; o.end = (i64)t->endJulianDate * cal::DAY + t->endTimeSeconds;
  zstructFree(t);
  return o;
}
inline std::vector<double> genValues(Case &c, i64 n, bool dbl) {
  std::vector<double> v(n); auto &s = c.s; int kind = (int)s.draw(6); double base = (double)s.range(0, 5000) / 4; int run = 1 + (int)s.draw(9); int missPct = s.pick({0, 0, 10, 40, 100}); uint32_t h = (uint32_t)s.draw(1 << 30);
  for (i64 i = 0; i < n; i++) {
    h = h * 1664525u + 1013904223u; uint32_t r = h >> 9;
    double x = kind == 0 ? base : kind == 1 ? base + i : kind == 2 ? base + (i / run) : kind == 3 ? (double)((int)(r % 20001) - 10000) / 8 : kind == 4 ? ((r % 4) ? base : (double)(r % 7)) : (dbl ? (double)r / 7.0 : (double)(float)((double)r / 7.0));
    if (missPct && (int)(r % 100) < missPct) x = s.chance(0) ? 0 : (r % 11 == 0 ? -901.0 : MISS());
    v[i] = dbl ? x : (double)(float)x;
  }
  // a missing head or tail is common in practice
  if (n > 2 && s.chance(25)) { i64 k = s.range(1, n - 1); if (s.chance(50)) for (i64 i = 0; i < k; i++) v[i] = MISS(); else for (i64 i = k; i < n; i++) v[i] = MISS(); }
  return v;
}
