// Independent proleptic Gregorian calendar and interval arithmetic.
// Instants are seconds; instant 0 is 31 Dec 1899 00:00 (HEC julian day 0).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace cal {
typedef long long i64;
inline i64 fdiv(i64 a, i64 b) { i64 q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }
inline i64 fmodi(i64 a, i64 b) { return a - fdiv(a, b) * b; }
inline bool leap(i64 y) { return fmodi(y, 4) == 0 && (fmodi(y, 100) != 0 || fmodi(y, 400) == 0); }
inline int mdays(i64 y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
// day number (HEC julian: 1 = 01Jan1900), astronomical year numbering
inline i64 days(i64 y, int m, int d) {
  y -= m <= 2; i64 era = fdiv(y, 400); i64 yoe = y - era * 400; i64 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; i64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 25568; // 1970-01-01 is HEC julian 25568
}
inline void ymd(i64 j, i64 &y, int &m, int &d) {
  i64 z = j - 25568 + 719468; i64 era = fdiv(z, 146097); i64 doe = z - era * 146097; i64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400;
  i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100); i64 mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2;
}
const i64 DAY = 86400;
enum { WEEK = 604800, TRI = 864000, SEMI = 1296000, MONTH = 2592000, YEAR = 31536000 };
// End of period instants, numbered consecutively; eop(k-1) < T <= eop(k) is period k.
inline i64 eop(int iv, i64 k) {
  if (iv < TRI) return k * iv;
  if (iv == YEAR) return days(k, 12, 31) * DAY + DAY;
  int per = iv == TRI ? 3 : iv == SEMI ? 2 : 1; i64 mi = fdiv(k, per); int part = (int)fmodi(k, per); i64 y = fdiv(mi, 12); int m = (int)fmodi(mi, 12) + 1;
  int d = part == per - 1 ? mdays(y, m) : iv == TRI ? 10 * (part + 1) : 15; return days(y, m, d) * DAY + DAY;
}
inline i64 slotOf(int iv, i64 T) {
  if (iv < TRI) return fdiv(T + iv - 1, iv);
  i64 j = fdiv(T - 1, DAY); i64 y; int m, d; ymd(j, y, m, d); // the day that ends at or after T
  if (iv == YEAR) return y;
  i64 mi = y * 12 + m - 1;
  if (iv == MONTH) return mi;
  if (iv == SEMI) return mi * 2 + (d > 15);
  return mi * 3 + (d > 20 ? 2 : d > 10 ? 1 : 0);
}
inline std::string str(i64 T) { i64 j = fdiv(T - 1, DAY), s = T - j * DAY; i64 y; int m, d; ymd(j, y, m, d); char b[80]; snprintf(b, sizeof b, "%lld-%02d-%02d %02lld:%02lld:%02lld", y, m, d, s / 3600, s / 60 % 60, s % 60); return b; }
// block (as the pathname D part names it) that holds day j of a regular series
inline i64 blockStart(int iv, i64 j) {
  i64 y; int m, d; if (iv < 900) return j; ymd(j, y, m, d);
  if (iv < DAY) return days(y, m, 1); if (iv < WEEK) return days(y, 1, 1); if (iv < YEAR) return days(fdiv(y, 10) * 10, 1, 1); return days(fdiv(y, 100) * 100, 1, 1);
}
inline i64 irrBlockStart(int bs, i64 j) { i64 y; int m, d; ymd(j, y, m, d); switch (bs) { case 1: return j; case 2: return days(y, m, 1); case 3: return days(y, 1, 1); case 4: return days(fdiv(y, 10) * 10, 1, 1); default: return days(fdiv(y, 100) * 100, 1, 1); } }
inline i64 nextBlock(int bs, i64 j) { i64 y; int m, d; ymd(j, y, m, d); switch (bs) { case 1: return j + 1; case 2: return m == 12 ? days(y + 1, 1, 1) : days(y, m + 1, 1); case 3: return days(y + 1, 1, 1); case 4: return days(y + 10, 1, 1); default: return days(y + 100, 1, 1); } }
inline int blockKind(int iv) { return iv < 900 ? 1 : iv < DAY ? 2 : iv < WEEK ? 3 : iv < YEAR ? 4 : 5; }
inline std::string dpart(i64 j) { static const char *mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; i64 y; int m, d; ymd(j, y, m, d); char b[40]; snprintf(b, sizeof b, "%02d%s%04lld", d, mn[m - 1], y); return b; }
}
