// Calendar and clock conversions against an independent proleptic Gregorian calendar.
#include "dss.hpp"
#include "cal.hpp"
using namespace cal;
static const char *MN[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static std::string upc(std::string s) { for (auto &c : s) c = toupper((unsigned char)c); return s; }
static std::string loc(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
// the documented style table
static std::string styled(int st, i64 y, int m, int d) {
  char b[64];
  if (st < 0) {
    if (st == -13) { snprintf(b, sizeof b, "%04lld-%02d-%02d", y, m, d); return b; }
    bool y4 = st < -100; int k = y4 ? st + 100 : st; char del = (k == -2 || k == -12) ? '-' : '/'; 
    std::string ys = y4 ? fmt("%04lld", y) : fmt("%02lld", y % 100);
    return k < -10 ? fmt("%02d%c%02d%c%s", m, del, d, del, ys.c_str()) : fmt("%d%c%d%c%s", m, del, d, del, ys.c_str());
  }
  bool U = st >= 100; int k = st % 100; bool y2 = k >= 10; k %= 10;
  std::string lm = MN[m - 1], sm = lm.substr(0, 3); if (U) { lm = upc(lm); sm = upc(sm); }
  std::string ys = y2 ? fmt("%02lld", y % 100) : fmt("%04lld", y);
  switch (k) {
    case 0: return fmt("%s %d, %s", lm.c_str(), d, ys.c_str());
    case 1: return fmt("%s %d, %s", sm.c_str(), d, ys.c_str());
    case 2: return fmt("%d %s %s", d, lm.c_str(), ys.c_str());
    case 3: return fmt("%s %s", lm.c_str(), ys.c_str());
    case 4: return fmt("%02d%s%s", d, sm.c_str(), ys.c_str());
    case 5: return fmt("%d%s%s", d, sm.c_str(), ys.c_str());
    case 6: return fmt("%s%s", sm.c_str(), ys.c_str());
    case 7: return fmt("%02d %s %s", d, sm.c_str(), ys.c_str());
    case 8: return fmt("%d %s %s", d, sm.c_str(), ys.c_str());
    default: return fmt("%s %s", sm.c_str(), ys.c_str());
  }
}
static i64 genDay(Case &c, i64 lo, i64 hi) {
  i64 a = days(lo, 1, 1), b = days(hi, 12, 31), j;
  switch (c.s.weighted({4, 3, 3, 2})) {
    case 0: j = c.s.range(days(1900, 1, 1), days(2100, 12, 31)); break;
    case 1: { i64 y = c.s.range(lo, hi); static const int md[][2] = {{2, 28}, {3, 1}, {12, 31}, {1, 1}, {2, 29}}; int k = (int)c.s.draw(5); j = days(y, md[k][0], md[k][1]); break; }
    case 2: { i64 y = c.s.range(lo / 100, hi / 100) * 100 + c.s.pick({0, 1, -1, 4}); j = days(y, (int)c.s.range(1, 12), 1) + c.s.range(-2, 60); break; }
    default: j = c.s.range(a, b);
  }
  return std::min(std::max(j, a), b);
}
static void dayCase(Case &c) {
  i64 j0 = genDay(c, -4000, 9999); int n = c.tier ? 3000 : 800; c.note("days %lld.. %d", j0, n);
  for (i64 j = j0; j < j0 + n; j++) {
    i64 y; int m, d; ymd(j, y, m, d); int Y, M, D;
    int st = julianToYearMonthDay((int)j, &Y, &M, &D);
    if (st || Y != y || M != m || D != d) c.fail("julianToYearMonthDay(%lld) = %d/%d/%d (status %d), expected %lld/%d/%d", j, Y, M, D, st, y, m, d);
    int r = yearMonthDayToJulian((int)y, m, d); if (r != j) c.fail("yearMonthDayToJulian(%lld,%d,%d) = %d, expected %lld", y, m, d, r, j);
    if (dayOfWeek((int)j) != (int)fmodi(j, 7) + 1) c.fail("dayOfWeek(%lld) = %d, expected %d", j, dayOfWeek((int)j), (int)fmodi(j, 7) + 1);
    if ((isLeapYear((int)y) != 0) != leap(y)) c.fail("isLeapYear(%lld)", y);
  }
  // months outside 1..12 roll into the adjoining years
  i64 y; int m, d; ymd(j0, y, m, d); int k = (int)c.s.range(-30, 30); i64 mi = y * 12 + m - 1 + k;
  if (y > 10) { int r = yearMonthDayToJulian((int)y, m + k, 1); i64 e = days(fdiv(mi, 12), (int)fmodi(mi, 12) + 1, 1); if (r != e) c.fail("yearMonthDayToJulian(%lld,%d,1) = %d, expected %lld", y, m + k, r, e); }
  c.evals(n); c.label("days");
}
static void stringCase(Case &c) {
  for (int it = 0; it < 60; it++) {
    static const std::vector<int> base = {4, 0, 1, 2, 3, 5, 6, 7, 8, 9, -1, -2, -11, -12, -13};
    int b = c.s.pick(base), st = b; bool y4 = true;
    if (b >= 0) { if (c.s.chance(40)) st += 100; if (c.s.chance(20)) { st += 10; y4 = false; } } else if (b != -13) { if (c.s.chance(60)) st -= 100; else y4 = false; }
    i64 j = genDay(c, y4 ? 1 : 1000, 9999), y; int m, d; ymd(j, y, m, d);
    std::string want = styled(st, y, m, d); char out[64]; memset(out, '#', sizeof out);
    int len = julianToDate((int)j, st, out, 40); c.note("style %d of %lld-%d-%d -> \"%s\"", st, y, m, d, out);
    if (want != out) { if (upc(want) != upc(out) || (st != 112 && st != 115)) c.fail("julianToDate style %d of %lld-%02d-%02d = \"%s\", expected \"%s\"", st, y, m, d, out, want.c_str()); }
    if (len != (int)want.size()) c.fail("julianToDate style %d returned %d for \"%s\"", st, len, out);
    if (c.s.chance(20)) { // a short buffer is truncated and terminated, never overrun
      size_t cap = 1 + c.s.draw(want.size() + 1); char *h = (char *)malloc(cap); julianToDate((int)j, st, h, cap);
      if (strnlen(h, cap) >= cap || want.compare(0, strlen(h), h)) c.fail("julianToDate style %d into %zu bytes gave \"%.*s\"", st, cap, (int)cap, h);
      free(h);
    }
    // parse back
    std::string p = want; int k = (int)c.s.draw(3); if (k == 1) p = upc(p); else if (k == 2) p = loc(p);
    int kk = st < 0 ? st : st % 10; bool hasDay = !(st >= 0 && (kk == 3 || kk == 6 || kk == 9)); if (y4) {
      int Y = -1, M = -1, D = -1; int rs = dateToYearMonthDay(p.c_str(), &Y, &M, &D);
      if (rs || Y != y || M != m || D != (hasDay ? d : 0)) c.fail("dateToYearMonthDay(\"%s\") = %d/%d/%d status %d", p.c_str(), Y, M, D, rs);
      int r = dateToJulian(p.c_str()); i64 e = hasDay ? j : days(y, m, 1);
      bool c7 = p.size() == 7 && y < 100; if (!c7 && r != e) c.fail("dateToJulian(\"%s\") = %d, expected %lld", p.c_str(), r, e);
    } else if (st % 100 == 14 && hasDay && (y % 100 != 0 || m != 2 || d != 29)) { // two digit years of the DSS style mean 2000-2099
      i64 yy = 2000 + y % 100; if (!(m == 2 && d == 29 && !leap(yy))) { int r = dateToJulian(p.c_str()); if (r != days(yy, m, d)) c.fail("dateToJulian(\"%s\") = %d, expected %lld (year %lld)", p.c_str(), r, days(yy, m, d), yy); }
    }
    // something is made invalid
    if (c.s.chance(40)) {
      std::string bad; int y_ = (int)c.s.range(1000, 9999), mm = (int)c.s.range(1, 12); const char *mo = MN[mm - 1];
      switch (c.s.draw(8)) {
        case 0: bad = fmt("%02d%s%d", (int)c.s.range(32, 99), std::string(mo).substr(0, 3).c_str(), y_); break;
        case 1: bad = fmt("%02d%s%d", (int)c.s.range(1, 28), c.s.text(3, "QWZXK").c_str(), y_); break;
        case 2: bad = fmt("%d/%d/%d", (int)c.s.range(13, 99), (int)c.s.range(1, 28), y_); break;
        case 3: bad = fmt("%04d-%02d-%02d", y_, (int)c.s.pick({0, 13, 20, 99}), (int)c.s.range(1, 28)); break;
        case 4: bad = fmt("%04d-%02d-%02d", y_, mm, c.s.chance(50) ? 0 : mdays(y_, mm) + 1 + (int)c.s.draw(5)); break;
        case 5: bad = fmt("%02d%s%d", mdays(y_, mm) + 1, std::string(mo).substr(0, 3).c_str(), y_); break;
        case 6: bad = fmt("%d/%d/%d", mm, mdays(y_, mm) + 1 + (int)c.s.draw(3), y_); break;
        default: bad = c.s.text(c.s.draw(12), "xyzqwk #;"); break;
      }
      std::vector<char> hb(bad.begin(), bad.end()); hb.push_back(0); int r = dateToJulian(hb.data());
      if (r != UNDEFINED_TIME) c.fail("dateToJulian(\"%s\") = %d, which is not a date", bad.c_str(), r);
      int Y, M, D; if (dateToYearMonthDay(hb.data(), &Y, &M, &D) == 0) c.fail("dateToYearMonthDay(\"%s\") accepted", bad.c_str());
    }
    { int Y = 2000; char o[40]; int mo = c.s.pick({0, 13, -1}); if (yearMonthDayToDate(Y, mo, 1, 4, o, sizeof o) > 0) c.fail("yearMonthDayToDate accepted month %d", mo); if (yearMonthDayToDate(Y, 1, c.s.pick({0, 32, -4}), 4, o, sizeof o) > 0) c.fail("yearMonthDayToDate accepted a bad day"); }
    c.label("style%s", st < 0 ? "<0" : st < 100 ? "<100" : ">=100");
  }
  char b[40]; memset(b, 0, sizeof b); julianToDate(UNDEFINED_TIME, 4, b, sizeof b); if (upc(b) != "UNDEFINED") c.fail("undefined date is written \"%s\"", b);
  c.evals(60);
}
static void clockCase(Case &c) {
  for (int it = 0; it < 200; it++) {
    int s = (int)(c.s.chance(20) ? c.s.pick({0, 86400, 86399, 1, 59, 60, 3599, 3600, 43200}) : c.s.range(0, 86400)); int style = (int)c.s.draw(4), ms = (int)c.s.draw(1000);
    std::string w = style == 0 ? fmt("%02d%02d", s / 3600, s / 60 % 60) : style == 1 ? fmt("%02d:%02d", s / 3600, s / 60 % 60) : style == 2 ? fmt("%02d:%02d:%02d", s / 3600, s / 60 % 60, s % 60) : fmt("%02d:%02d:%02d.%03d", s / 3600, s / 60 % 60, s % 60, ms);
    char *h = (char *)malloc(w.size() + 1); secondsToTimeString(s, ms, style, h, w.size() + 1);
    if (w != h) c.fail("secondsToTimeString(%d,%d,style %d) = \"%s\", expected \"%s\"", s, ms, style, h, w.c_str());
    free(h);
    if (style < 3) { int e = style == 2 ? s : s / 60 * 60; int r = timeStringToSeconds(w.c_str()); if (r != e) c.fail("timeStringToSeconds(\"%s\") = %d, expected %d", w.c_str(), r, e);
      std::string v = w; if (style == 1 && v[0] == '0') { v = v.substr(1); r = timeStringToSeconds(v.c_str()); if (r != e) c.fail("timeStringToSeconds(\"%s\") = %d, expected %d", v.c_str(), r, e); } }
    else { float f = timeStringToSecondsMills(w.c_str()); if (std::fabs((double)f - (s + ms / 1000.0)) > 0.005) c.fail("timeStringToSecondsMills(\"%s\") = %f", w.c_str(), f); }
    int mi = (int)c.s.range(0, 1440); char hm[8]; minutesToHourMin(mi, hm, sizeof hm); if (fmt("%02d%02d", mi / 60, mi % 60) != hm) c.fail("minutesToHourMin(%d) = \"%s\"", mi, hm);
    if (timeStringToSeconds(hm) != mi * 60) c.fail("timeStringToSeconds(\"%s\") = %d", hm, timeStringToSeconds(hm));
  }
  char b[20] = "x"; secondsToTimeString((int)c.s.pick({-1, 86401, 100000}), 0, 2, b, sizeof b); if (b[0]) c.fail("out of range seconds gave \"%s\"", b);
  std::string bad = c.s.text(c.s.draw(6), "abc:. "); if (c.s.chance(50)) bad += c.s.text(c.s.draw(3), "0123456789"); int r = timeStringToSeconds(bad.c_str()); if (r >= 0) c.fail("timeStringToSeconds(\"%s\") = %d", bad.c_str(), r);
  c.evals(200); c.label("clock");
}
static void mixedCase(Case &c) {
  for (int it = 0; it < 60; it++) {
    i64 j = genDay(c, 1, 9999); int gran = c.s.pick({60, 1, 3600, 900, 0}), g = gran ? gran : 60; i64 base = c.s.chance(50) ? j - c.s.range(-3000, 3000) : 0;
    int sec = (int)(c.s.range(1, 86400 / g)) * g; i64 T = j * DAY + sec; i64 tv = (T - base * DAY) / g; // T is a whole number of units after the base
    if (tv > 2147483647LL || tv < -2147483647LL) { base = j; tv = sec / g; }
    char ds[40], hs[40]; getDateAndTime((int)tv, gran, (int)base, ds, sizeof ds, hs, sizeof hs);
    i64 y; int m, d; ymd(j, y, m, d); std::string wd = styled(4, y, m, d), wh = g == 1 ? fmt("%02d:%02d:%02d", sec / 3600, sec / 60 % 60, sec % 60) : fmt("%02d%02d", sec / 3600, sec / 60 % 60);
    if (wd != ds || wh != hs) c.fail("getDateAndTime(%lld, gran %d, base %lld) = \"%s\" \"%s\", expected \"%s\" \"%s\"", tv, gran, base, ds, hs, wd.c_str(), wh.c_str());
    char d2[40], t2[40]; getDateTimeString((int)j, d2, sizeof d2, 4, sec, t2, sizeof t2, 2); if (wd != d2 || fmt("%02d:%02d:%02d", sec / 3600, sec / 60 % 60, sec % 60) != t2) c.fail("getDateTimeString = \"%s\" \"%s\"", d2, t2);
    { std::string sp = (d < 10 && c.s.chance(50) ? wd.substr(1) : wd) + ":" + fmt("%02d%02d", sec / 3600, sec / 60 % 60); int jj, ss; int st = spatialDateTime(&sp[0], &jj, &ss); if (y >= 100 && (st || jj != j || ss != sec / 60 * 60)) c.fail("spatialDateTime(\"%s\") = %d %d status %d", sp.c_str(), jj, ss, st); }
    i64 mins = c.s.range(-1000000000, 1000000000); minsToDateTime((int)mins, ds, hs, sizeof ds, sizeof hs); i64 mj = fdiv(mins, 1440), mm = fmodi(mins, 1440); ymd(mj, y, m, d);
    if (y > 0 && (styled(4, y, m, d) != ds || fmt("%02lld%02lld", mm / 60, mm % 60) != hs)) c.fail("minsToDateTime(%lld) = \"%s\" \"%s\", expected \"%s\" %02lld%02lld", mins, ds, hs, styled(4, y, m, d).c_str(), mm / 60, mm % 60);
    i64 mills = c.s.range(-60000000000000LL, 200000000000000LL), sc = fdiv(mills, 1000), ml = fmodi(mills, 1000), dj = fdiv(sc, DAY), sd = fmodi(sc, DAY); millsToDateTime(mills, ds, hs, sizeof ds, sizeof hs); ymd(dj + 25568, y, m, d);
    if (y > 0 && (styled(4, y, m, d) != ds || fmt("%02lld:%02lld:%02lld.%03lld", sd / 3600, sd / 60 % 60, sd % 60, ml) != hs)) c.fail("millsToDateTime(%lld) = \"%s\" \"%s\"", mills, ds, hs);
    // comparison of times in different bases and units
    int g1 = c.s.pick({60, 1}), g2 = c.s.pick({1, 60}); i64 b1 = c.s.range(-5000, 5000), b2 = c.s.range(-5000, 5000); int j1 = (int)(j - b1), t1 = (int)c.s.range(1, DAY / g1), dj2 = (int)c.s.range(-1, 1); int j2 = (int)(j + dj2 - b2), t2v = c.s.chance(40) ? (int)((i64)t1 * g1 / g2) : (int)c.s.range(1, DAY / g2);
    if (!t2v) t2v = 1; i64 A = (j1 + b1) * DAY + (i64)t1 * g1, B = (j2 + b2) * DAY + (i64)t2v * g2; int cr = compareTimes(j1, t1, (int)b1, g1, j2, t2v, (int)b2, g2); if (cr != (A < B ? -1 : A > B)) c.fail("compareTimes(%d,%d,%lld,%d, %d,%d,%lld,%d) = %d", j1, t1, b1, g1, j2, t2v, b2, g2, cr);
    if (addCentury(85) != 2085 || addCentury(1985) != 1985) c.fail("addCentury");
  }
  c.evals(60); c.label("mixed");
}
static void fuzzCase(Case &c) { // any text: no crash, and what is accepted is a date that exists
  for (int it = 0; it < 40; it++) {
    std::string p; i64 j = genDay(c, 1, 9999), y; int m, d; ymd(j, y, m, d);
    if (c.s.chance(30)) p = c.s.text(c.s.draw(40), "0123456789-/ ,:JanFebMarDECmay#"); else { p = styled(c.s.pick({4, 0, 1, 2, 7, -13, -101, -112, -1, 14}), y, m, d); int k = (int)c.s.range(1, 3); while (k--) { if (p.empty()) break; size_t q = c.s.draw(p.size()); switch (c.s.draw(3)) { case 0: p[q] = "0123456789-/ ,:aJ"[c.s.draw(17)]; break; case 1: p.erase(q, 1); break; default: p.insert(q, 1, "0123456789-/ ,:aJ"[c.s.draw(17)]); } } }
    std::vector<char> hb(p.begin(), p.end()); hb.push_back(0); int Y = 0, M = 0, D = 0; int st = dateToYearMonthDay(hb.data(), &Y, &M, &D); int r = dateToJulian(hb.data()); c.note("\"%s\" -> %d %d/%d/%d jul %d", p.c_str(), st, Y, M, D, r);
    if ((st != 0) != (r == UNDEFINED_TIME)) c.fail("\"%s\": dateToYearMonthDay returned %d but dateToJulian %d", p.c_str(), st, r);
    if (st == 0) { if (M < 1 || M > 12 || D < 0 || D > 31) c.fail("\"%s\" was taken as %d/%d/%d", p.c_str(), Y, M, D);
      i64 e = days(Y < 100 && p.size() == 7 ? Y + 2000 : Y, M, D ? D : 1); if (Y > -5000 && Y < 10000 && r != e) c.fail("\"%s\" is %d/%d/%d but julian %d (expected %lld)", p.c_str(), Y, M, D, r, e);
      if (D > mdays(Y, M)) c.fail("\"%s\" was taken as %d/%d/%d, which does not exist", p.c_str(), Y, M, D); }
    timeStringToSeconds(hb.data()); timeStringToSecondsMills(hb.data()); int a, b; if (p.size() >= 1) spatialDateTime(hb.data(), &a, &b);
  }
  c.evals(40); c.label("fuzz");
}
static void runC10(Case &c) {
  quiet(); c.nontrivial();
  switch (c.s.weighted({3, 4, 2, 2, 2})) { case 0: dayCase(c); break; case 1: stringCase(c); break; case 2: clockCase(c); break; case 3: mixedCase(c); break; default: fuzzCase(c); }
}
static eng::Reg r({"C10", "each case evaluates tens to hundreds of conversions against an independent calendar: consecutive days (years -4000 to 9999, clustered on leap days, year and century ends), every date style written and parsed back, clock strings, mixed date-time calls, and mutated date strings; every case is non-trivial", runC10, 15000, 200000, "exploration", {"date strings cover years 1 to 9999"}});
