// Interval arithmetic against an independent model of end-of-period instants.
#include "ts.hpp"
using namespace cal;
static i64 inst(int j, int s) { return (i64)j * DAY + s; }
static i64 genInstant(Case &c) {
  i64 y; if (c.s.chance(60)) y = c.s.range(1880, 2100); else y = c.s.range(100, 9000);
  i64 j = days(y, (int)c.s.range(1, 12), 1) + (c.s.chance(50) ? c.s.range(-3, 3) : c.s.range(0, 30)); i64 s = c.s.chance(40) ? c.s.pick({86400, 43200, 1, 86399, 3600}) : c.s.range(1, 86400); return j * DAY + s;
}
static void runC11(Case &c) {
  quiet(); bool nt = false;
  for (int it = 0; it < 60; it++) {
    auto &iv = c.s.pick(intervals()); int I = iv.sec; RegTime r = genRegTime(c, I); i64 T0 = genInstant(c), k = r.slot(T0);
    if (std::llabs(T0) < 400 * DAY && c.s.chance(50)) { T0 += 800 * DAY; k = r.slot(T0); }
    i64 A = r.at(k); i64 maxN = I < DAY ? 2000000000LL : I < TRI ? 300000 : I <= MONTH ? 30000 : 1500; i64 n;
    switch (c.s.weighted({4, 3, 2})) { case 0: n = c.s.range(-40, 40); break; case 1: n = c.s.range(-1000, 1000); break; default: n = c.s.range(-maxN, maxN); }
    i64 B = r.at(k + n); if (B < days(10, 1, 1) * DAY || B > days(9990, 1, 1) * DAY) continue;
    int j, s, je, se; splitT(A, j, s); if (j == 0 && s == 0) continue;
    auto zero = [](i64 T) { return T <= DAY * 2 && T >= -DAY * 2; }; // (0, 0) stands for an undefined time
    bool z = zero(A) || zero(B) || zero(eop(I, k)) || zero(eop(I, k + n)) || zero(eop(I, k - 1)) || zero(eop(I, k + n - 1));
    c.note("%s offset %lld: %s + %lld", iv.name, r.off, str(A).c_str(), n);
    if (!z) {
      int st = incrementTime(I, (int)n, j, s, &je, &se);
      if (st || inst(je, se) != B) c.fail("incrementTime(%s, %lld) from %s = %s (status %d), expected %s", iv.name, n, str(A).c_str(), str(inst(je, se)).c_str(), st, str(B).c_str());
      if (se < 1 || se > 86400) c.fail("incrementTime gave %d seconds", se);
      // the end may be the same variables as the start
      int j2 = j, s2 = s; incrementTime(I, (int)n, j2, s2, &j2, &s2); if (j2 != je || s2 != se) c.fail("incrementTime in place gave %s, not %s", str(inst(j2, s2)).c_str(), str(B).c_str());
      int np = numberPeriods(I, j, s, je, se); if (np != n) c.fail("numberPeriods(%s, %s, %s) = %d, expected %lld", iv.name, str(A).c_str(), str(B).c_str(), np, n);
      // two steps make one
      i64 m = n ? c.s.range(0, std::llabs(n)) * (n < 0 ? -1 : 1) : 0; i64 M = r.at(k + m);
      if (!zero(M) && !zero(eop(I, k + m)) && !zero(eop(I, k + m - 1))) { int jm, sm; incrementTime(I, (int)m, j, s, &jm, &sm); incrementTime(I, (int)(n - m), jm, sm, &jm, &sm); if (inst(jm, sm) != B) c.fail("%s: +%lld then +%lld from %s gave %s, expected %s", iv.name, m, n - m, str(A).c_str(), str(inst(jm, sm)).c_str(), str(B).c_str()); }
      if (n) nt = true;
    }
    // offsets
    if (!z) {
      int o = ztsOffset(I, j, s); i64 eo = r.off; if (o != eo) c.fail("ztsOffset(%s, %s) = %d, expected %lld", iv.name, str(A).c_str(), o, eo);
      int ja = j, sa = s; int ro = ztsOffsetAdjustToStandard(I, &ja, &sa); if (ro != eo || inst(ja, sa) != eop(I, k)) c.fail("ztsOffsetAdjustToStandard(%s, %s) = %s offset %d, expected %s offset %lld", iv.name, str(A).c_str(), str(inst(ja, sa)).c_str(), ro, str(eop(I, k)).c_str(), eo);
      int jb = ja, sb = sa; ztsOffsetAdjustToOffset((int)eo, I, &jb, &sb); if (inst(jb, sb) != A) c.fail("ztsOffsetAdjustToOffset(%s, %lld) from %s = %s, expected %s", iv.name, eo, str(inst(ja, sa)).c_str(), str(inst(jb, sb)).c_str(), str(A).c_str());
    }
    // any time of a sub-week interval moves to the end of its period
    if (I <= WEEK) { int ja, sa; splitT(T0, ja, sa); i64 e = eop(I, k), off = T0 - (e - I); if (off == I) off = 0; if (!zero(T0) && !zero(e)) { int ro = ztsOffsetAdjustToStandard(I, &ja, &sa); if (ro != off || inst(ja, sa) != e) c.fail("ztsOffsetAdjustToStandard(%s, %s) = %s offset %d, expected %s offset %lld", iv.name, str(T0).c_str(), str(inst(ja, sa)).c_str(), ro, str(e).c_str(), off); } }
    // whole periods between any two times, short intervals
    if (I < TRI) { i64 U = T0 + (c.s.chance(50) ? c.s.range(-3000000000LL, 3000000000LL) : c.s.range(-200000, 200000)); i64 e = (U - T0) / I; int ju, su, jt, st2; splitT(U, ju, su); splitT(T0, jt, st2); if (!zero(U) && !zero(T0) && std::llabs(e) < 2147483647LL) { int np = numberPeriods(I, jt, st2, ju, su); if (np != e) c.fail("numberPeriods(%s, %s, %s) = %d, expected %lld", iv.name, str(T0).c_str(), str(U).c_str(), np, e); } }
    else { // longer intervals: whole period ends between any two standard times, whole years between any dates
      if (I == YEAR) { i64 y1, y2; int m1, d1, m2, d2, j1, s1, j2, s2; splitT(T0, j1, s1); i64 U = genInstant(c); splitT(U, j2, s2); ymd(j1, y1, m1, d1); ymd(j2, y2, m2, d2); i64 e = (y2 * 12 + m2 - y1 * 12 - m1); if (d1 == d2 && s1 == s2 && !zero(T0) && !zero(U)) { int np = numberPeriods(I, j1, s1, j2, s2); (void)e; i64 lo = fdiv(e, 12), hi = -fdiv(-e, 12); if (np != lo && np != hi) c.fail("numberPeriods(1Year, %s, %s) = %d", str(T0).c_str(), str(U).c_str(), np); } }
    }
    // normalisation keeps the instant
    { int g = c.s.pick({1, 60}); int jj = (int)c.s.range(-700000, 2900000); i64 v = c.s.chance(30) ? c.s.pick({0, 1, -1, 86400, 1440, -86400, -1440, 86401, 1441}) : c.s.chance(50) ? c.s.range(-200000, 200000) : c.s.range(-2000000000LL, 2000000000LL);
      if (!(jj == 0 && v == 0)) { int j3 = jj, v3 = (int)v; int st = cleanTime(&j3, &v3, g); if (st != 1 || (i64)j3 * DAY + (i64)v3 * g != (i64)jj * DAY + v * g || v3 < 1 || v3 > DAY / g) c.fail("cleanTime(%d, %lld, %d) = %d, %d (status %d)", jj, v, g, j3, v3, st); } }
    { int ju = UNDEFINED_TIME, su = 5; if (cleanTime(&ju, &su, 1) != 0 || ju != UNDEFINED_TIME || isTimeDefined(ju, su)) c.fail("an undefined time became defined"); }
    // one time is in a window or not
    c.label("%s%s", I >= TRI ? "long" : I >= DAY ? "day-week" : "short", r.off ? " offset" : ""); if (n < 0) c.label("negative n");
  }
  // names and lengths of the standard intervals
  { auto &iv = c.s.pick(intervals()); char e[40]; int op = EPART_TO_SECONDS, sec = 0; std::string nm = recase(c, iv.name); stringCopy(e, sizeof e, nm.c_str(), nm.size());
    int st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); if (st != 0 || sec != iv.sec) c.fail("interval \"%s\" is %d seconds (status %d), expected %d", e, sec, st, iv.sec);
    op = SECONDS_TO_EPART; sec = iv.sec; memset(e, 0, sizeof e); st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); if (st || up(e) != up(iv.name)) c.fail("interval of %d seconds is named \"%s\" (status %d), expected %s", iv.sec, e, st, iv.name);
    std::string p = "/A/B/C//" + nm + "/F/"; if (ztsGetInterval(7, p.c_str()) != iv.sec) c.fail("ztsGetInterval(\"%s\") = %d", p.c_str(), ztsGetInterval(7, p.c_str()));
    op = EPART_TO_SECONDS_TO_EPART; stringCopy(e, sizeof e, nm.c_str(), nm.size()); st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); if (st || sec != iv.sec || strcmp(e, iv.name)) c.fail("standard spelling of \"%s\" is \"%s\" (%d)", nm.c_str(), e, sec);
    // no other number of seconds has a name
    op = SECONDS_TO_EPART; sec = (int)c.s.range(1, 40000000); bool is = false; for (auto &x : intervals()) if (x.sec == sec) is = true; st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); if (!is && st == 0) c.fail("%d seconds is named %s", sec, e);
    static const char *bl[] = {"IR-Day", "IR-Month", "IR-Year", "IR-Decade", "IR-Century"}; int b = (int)c.s.draw(5); std::string bn = recase(c, bl[b]); stringCopy(e, sizeof e, bn.c_str(), bn.size()); op = EPART_TO_SECONDS; st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); if (st != 1 || sec != -(b + 1)) c.fail("block \"%s\" gives %d (status %d)", e, sec, st);
    const char *no = c.s.pick({"7Minute", "5Hour", "Foo", "IR-Week", "2Month", "0Day", "Hour", "24Hour"}); stringCopy(e, sizeof e, no, strlen(no)); op = EPART_TO_SECONDS; sec = 77; st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); if (st == 0 || st == 1) c.fail("\"%s\" was taken as an interval of %d seconds", no, sec);
    if (ztsGetInterval(7, fmt("/A/B/C//%s/F/", no).c_str()) != 0) c.fail("ztsGetInterval of %s is not 0", no);
  }
  { // the enumeration gives each interval once, longest first
    int op = BEGIN_ENUMERATION, sec = 0; char e[40]; std::set<int> seen; int st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op), g = 0;
    while (st == 0 && g++ < 100) { bool ok = sec < 0; for (auto &x : intervals()) if (x.sec == sec && up(x.name) == up(e)) ok = true; if (!ok || !seen.insert(sec).second) c.fail("the enumeration of intervals gives %s = %d seconds", e, sec); op = CONTINUE_ENUMERATION; st = ztsGetStandardInterval(7, &sec, e, sizeof e, &op); }
    int pos = 0; for (int x : seen) if (x > 0) pos++; if (pos != (int)intervals().size()) c.fail("the enumeration of intervals has %d regular intervals of %zu", pos, intervals().size());
  }
  c.evals(60); if (nt) c.nontrivial();
}
static eng::Reg r({"C11", "each case: 60 random (interval, offset, start, n) steps checked with the inverse count, two-step sums, offset removal and addition, plus time normalisation and the interval name table; non-trivial: a step with n != 0 was checked", runC11, 8000, 150000, "exploration", {"years 10 to 9990; times next to julian (0,0), which the library documents as undefined, are skipped", "offsets of month-like intervals stay off the last days of the period, which the library documents as the period end"}});
