// Header strings and encodings.
#include "rawstore.hpp"
#include <zlib.h>
extern "C" {
#include "hecdssInternal.h"
#undef min
#undef max
#include "verticalDatum.h"
void ztsRegRepeatUncompress(int, int, int, int, int, int *, int *, int *, int);
int ztsRegRepeatCompress(int *, int, int, int *, int, int *, int);
int uncompress_zlib(const void *, int, void *, int);
int compress_zlib(void *, int, void **);
int appendStringToHeader(char *, char *, int *, int);
char *readStringFromHeader(char *, int *, int);
}
#undef FALSE
#undef TRUE
namespace {
typedef std::string S;
static S lo(S s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
static S take(char *p) { S s = p ? p : "(null)"; if (p) free(p); return s; }
// ---- sets of key/value pairs in a delimited string, and in a record's user header
static void delimited(Case &c) {
  const char *sep = c.s.pick<const char *>({":", "=", "->", (const char *)0}); char del = c.s.pick({';', '\n', '|'}); S sp = sep ? sep : "";
  static const S keys[] = {"verticalDatum", "verticalDatumInfo", "K", "key", "keyK", "Datum", "a b", "x-1", "user"}; S ks[9]; for (int i = 0; i < 9; i++) ks[i] = keys[i] + (sep ? "" : ":");
  std::vector<std::pair<S, S>> m; int size = c.s.chance(30) ? (int)c.s.range(1, 120) : 4000; char *buf = (char *)malloc(size); buf[0] = 0;
  auto text = [&]() { S s; for (auto &k : m) s += k.first + sp + k.second + del; return s; };
  if (c.s.chance(25) && size == 4000) { S s; for (int i = 0, n = (int)c.s.range(1, 4); i < n; i++) { S v = c.s.text(c.s.size(20), "abcXYZ 0:=-K"); m.push_back({keys[i * 2] + (sep ? "" : ":"), v}); } s = text(); if (c.s.chance(50)) s.pop_back(); strcpy(buf, s.c_str()); }
  bool raw = !m.empty(); // as given: not yet rewritten with an ending delimiter
  auto val = [&]() { S v = c.s.text(c.s.size(60), "abcXYZ 0:=->,.K_"); if (c.s.chance(15)) v = ks[c.s.draw(9)] + sp + v; if (c.s.chance(5)) v += S(c.s.range(100, 900), 'w'); return v; };
  int n = (int)c.s.range(2, 14); for (int op = 0; op < n; op++) {
    int i = (int)c.s.draw(9); S k = ks[i]; auto it = std::find_if(m.begin(), m.end(), [&](auto &x) { return x.first == k; }); auto ci = std::find_if(m.begin(), m.end(), [&](auto &x) { return lo(x.first) == lo(k); });
    switch (c.s.weighted({45, 30, 15, 10})) {
    case 0: { S v = val(); bool ov = c.s.chance(60), null = v.empty() && c.s.chance(50); auto m2 = m; bool keep = it != m.end() && !ov; if (!keep) { if (it != m.end()) m2.erase(m2.begin() + (it - m.begin())); m2.push_back({k, v}); } S before = buf; std::swap(m, m2); size_t need = text().size() + 1; std::swap(m, m2); int e = keep ? 0 : need <= (size_t)size ? 0 : -1;
      int st = insertIntoDelimitedString(&buf, size, k.c_str(), null ? nullptr : v.c_str(), sep, ov, del); c.note("insert %s=%s ov%d -> %d", k.c_str(), v.c_str(), ov, st); if (st != e) c.fail("inserting %s%s\"%s\" (overwrite %d) in a string of %zu of %d bytes returned %d, expected %d", k.c_str(), sp.c_str(), v.c_str(), ov, before.size(), size, st, e);
      if (e || keep) { if (before != buf) c.fail("an insertion that %s changed \"%s\" to \"%s\"", e ? "failed" : "was to keep the value", before.c_str(), buf); if (e) { c.label("insert without room"); c.nontrivial(); } } else { m = m2; raw = false; } break; }
    case 1: { bool mc = c.s.chance(50); auto x = mc ? it : ci; char *r = extractFromDelimitedString(&buf, k.c_str(), sep, mc, 0, del); S g = r ? take(r) : "(none)", e = x == m.end() ? "(none)" : x->second; if (g != e) c.fail("extracting %s (match case %d) from \"%s\" gave \"%s\", expected \"%s\"", k.c_str(), mc, buf, g.c_str(), e.c_str()); break; }
    case 2: { char *r = extractFromDelimitedString(&buf, k.c_str(), sep, 1, 1, del); S g = r ? take(r) : "(none)", e = it == m.end() ? "(none)" : it->second; if (g != e) c.fail("removing %s from \"%s\" gave \"%s\", expected \"%s\"", k.c_str(), buf, g.c_str(), e.c_str()); c.note("remove %s", k.c_str()); if (it != m.end()) { m.erase(it); c.label("removed"); } break; }
    default: { S s = buf; S other = lo(k) == k ? up(k) : lo(k); if (std::any_of(m.begin(), m.end(), [&](auto &x) { return x.first == other; })) break; char *r = extractFromDelimitedString(&buf, other.c_str(), sep, 1, 0, del); if (r) { S g = take(r); c.fail("extracting %s from \"%s\" with case gave \"%s\"", other.c_str(), s.c_str(), g.c_str()); } } }
    if (!raw && text() != buf) c.fail("the string is \"%s\", expected \"%s\"", buf, text().c_str());
    for (auto &k2 : m) { S g = take(extractFromDelimitedString(&buf, k2.first.c_str(), sep, 1, 0, del)); if (g != k2.second) c.fail("%s reads \"%s\", expected \"%s\", in \"%s\"", k2.first.c_str(), g.c_str(), k2.second.c_str(), buf); }
  }
  if (m.size() > 1) c.nontrivial();
  // through an int header, and a record on disk
  S s = buf; int num = -1; int *uh = stringToUserHeader(buf, &num); if (num != (int)(s.size() + 3) / 4) c.fail("a string of %zu bytes became a header of %d ints", s.size(), num); S g = take(userHeaderToString(uh, num)); if (g != s) c.fail("the header of \"%s\" reads \"%s\"", s.c_str(), g.c_str());
  if (num > 0 && c.s.chance(8)) { c.label("in a record"); Dss d; if (d.openFile(c.path("h.dss"))) c.fail("cannot create"); zStructText *t = zstructTextStringNew("/A/B/C/D/E/F/", "body"); t->userHeader = uh; t->userHeaderNumber = num; if (ztextStore(d.ifltab, t)) c.fail("store"); t->userHeader = nullptr; t->userHeaderNumber = 0; zstructFree(t); d.close(); if (d.openFile(d.file)) c.fail("reopen");
    t = zstructTextNew("/A/B/C/D/E/F/"); if (ztextRetrieve(d.ifltab, t)) c.fail("retrieve"); g = take(userHeaderToString(t->userHeader, t->userHeaderNumber)); S e = s; if (num & 1) e += "    "; if (g != e) c.fail("the header string read from the record is \"%s\", expected \"%s\"", g.c_str(), s.c_str()); zstructFree(t); }
  if (uh) free(uh); free(buf);
}
static S bytes(Case &c, size_t n) { S s(n, 0); uint64_t x = c.s.draw(1ull << 40) + 1; int k = (int)c.s.draw(4); for (auto &b : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; uint8_t r = x >> 33; b = k == 0 ? r : k == 1 ? (char)(r % 3) : k == 2 ? (char)(r | 0x80) : (char)0; } return s; }
static void b64(Case &c) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  S in = bytes(c, c.s.size(300)), ref; for (size_t i = 0; i < in.size(); i += 3) { uint32_t w = 0; int n = (int)std::min<size_t>(3, in.size() - i); for (int k = 0; k < 3; k++) w = w << 8 | (k < n ? (uint8_t)in[i + k] : 0); for (int k = 0; k < 4; k++) ref += k <= n ? A[w >> (18 - 6 * k) & 63] : '='; }
  char *e = nullptr; char *raw = (char *)malloc(in.size() + !in.size()); memcpy(raw, in.data(), in.size()); int st = b64Encode(&e, raw, (int)in.size()); free(raw); S es = take(e); if (st || es != ref || b64EncodedLen((int)in.size()) != (int)ref.size()) c.fail("base 64 of %zu bytes gave %d and %zu characters (%d announced), expected %zu", in.size(), st, es.size(), b64EncodedLen((int)in.size()), ref.size());
  char *o = nullptr; int ol = -9; st = b64Decode(&o, &ol, ref.c_str()); if (st || ol != (int)in.size() || (ol && memcmp(o, in.data(), ol))) c.fail("decoding %zu characters gave status %d, %d bytes, expected %zu equal ones", ref.size(), st, ol, in.size()); if (o) free(o); if (b64DecodedLen((int)ref.size()) < (int)in.size()) c.fail("b64DecodedLen"); if (in.size() > 3) c.nontrivial();
  if (ref.empty()) return; S bad = ref; size_t p = c.s.draw(bad.size()); bool cut = c.s.chance(30); if (cut) bad.erase(p, 1); else bad[p] = c.s.pick({'*', ' ', '\x80', '-', '\n', '\x01'}); o = nullptr; st = b64Decode(&o, &ol, bad.c_str()); if (st == 0) c.fail("the malformed base 64 text \"%s\" decodes to %d bytes", bad.c_str(), ol); if (!cut && o) free(o); c.label("malformed base 64 refused");
}
static void zip(Case &c) {
  S t = c.s.chance(15) ? S(c.s.range(1, 60000), 'x') : c.s.text(1 + c.s.size(c.s.chance(20) ? 9000 : 400), "abcdefghijklmnopqrstuvwxyz<>/ \n=\"0123456789"); if (c.s.chance(20)) for (auto &b : t) if (b == 'a') b = (char)0xe9;
  char *z = nullptr, *er = gzipAndEncode(&z, t.c_str()); if (er) c.fail("gzipAndEncode of %zu characters: %s", t.size(), er); char *o = nullptr; er = decodeAndGunzip(&o, z); if (er || !o || t != o) c.fail("%zu characters come back from gzip as %s, %zu", t.size(), er ? er : "", o ? strlen(o) : 0); free(o);
  // what another gzip implementation made of it
  char *bin = nullptr; int bl = 0; if (b64Decode(&bin, &bl, z)) c.fail("the gzip text is not base 64"); z_stream s; memset(&s, 0, sizeof s); inflateInit2(&s, 15 + 32); S out(t.size() + 64, 0); s.next_in = (Bytef *)bin; s.avail_in = bl; s.next_out = (Bytef *)&out[0]; s.avail_out = (uInt)out.size(); int r = inflate(&s, Z_FINISH); out.resize(s.total_out); if (!out.empty() && !out.back()) out.pop_back(); inflateEnd(&s); if (r != Z_STREAM_END || out != t) c.fail("the gzip text of %zu characters inflates to %zu", t.size(), out.size()); 
  free(bin); S zs = take(z); c.nontrivial(); if (c.s.chance(40)) { S b = zs; if (c.s.chance(50)) b.resize(c.s.draw(b.size()) / 4 * 4); else b[c.s.draw(b.size() < 16 ? b.size() : b.size() - 4)] = 'A'; o = nullptr; er = decodeAndGunzip(&o, b.c_str()); if (b != zs && !er && (!o || b.size() < zs.size())) c.fail("a damaged gzip text decoded without error"); if (!er && o) free(o); }
}
static void zl(Case &c) {
  S in = bytes(c, 4 * (1 + c.s.size(c.s.chance(20) ? 40000 : 500))); void *z = nullptr; int n = compress_zlib(&in[0], (int)in.size(), &z); if (n <= 0) c.fail("compressing %zu bytes gave %d", in.size(), n); S out(in.size(), 1); int m = uncompress_zlib(z, n, &out[0], (int)out.size()); free(z); if (m != (int)in.size() || out != in) c.fail("%zu bytes compressed and uncompressed gave %d bytes%s", in.size(), m, out == in ? "" : " that differ"); c.nontrivial();
}
static void rep(Case &c) { // repeated values as bits
  int es = (int)c.s.range(1, 4), n = 1 + (int)c.s.size(200), hs = (n - 1) / 32 + 1; std::vector<int> in(n * es), out(n * es, -5), hd(hs), back(n * es, -7); int cur[4]; int pr = (int)c.s.range(0, 100); for (int i = 0; i < n; i++) { if (!i || !c.s.chance(pr)) { int j = (int)c.s.draw(es); if (!i) for (int q = 0; q < es; q++) cur[q] = (int)c.s.draw(9); cur[j] = (int)c.s.draw(3) - 1; } for (int q = 0; q < es; q++) in[i * es + q] = cur[q]; }
  int m = ztsRegRepeatCompress(in.data(), n, es, out.data(), n * es, hd.data(), hs), ex = es; for (int i = 1; i < n; i++) if (memcmp(&in[i * es], &in[i * es - es], 4 * es)) ex += es; if (m != ex) c.fail("%d elements of %d ints with repeats were stored in %d ints, expected %d", n, es, m, ex);
  out.resize(m); int a = (int)c.s.draw(n), b = a + (int)c.s.range(1, n - a); ztsRegRepeatUncompress(a, b, es, es, 0, hd.data(), out.data(), back.data(), n * es); for (int i = 0; i < (b - a) * es; i++) if (back[i] != in[a * es + i]) c.fail("elements %d to %d of %d: int %d is %d, expected %d", a, b, n, i, back[i], in[a * es + i]); if (m < n * es && n > 1) c.nontrivial();
}
static void hdr(Case &c) { // strings in a header, each on 8 byte words
  int n = (int)c.s.range(1, 6); std::vector<S> v; int size = 0; for (int i = 0; i < n; i++) { S s = c.s.text(c.s.size(40), "abcXYZ 0-."); if (i) while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); v.push_back(s); size += (int)(s.size() / 8 + 1) * 8; }
  char *b = (char *)malloc(size); memset(b, 'q', size); int p = 0; for (auto &s : v) { S t = s; appendStringToHeader(s.empty() && c.s.chance(50) ? nullptr : &t[0], b, &p, size); } if (p > size) c.fail("%d strings took %d bytes of %d", n, p, size); if (n > 1) c.nontrivial();
  b[size - 1] = 0; int q = 0; for (auto &s : v) { int at = q; char *r = readStringFromHeader(b + q, &q, size); if (q <= at && !s.empty()) c.fail("reading \"%s\" from a header did not advance", s.c_str()); S g = r ? take(r) : ""; if (g != s) c.fail("\"%s\" in a header is read as \"%s\"", s.c_str(), g.c_str()); } free(b);
}
struct Xml { S a, b; };
static Xml gx(Case &c, int d) { S t = c.s.text(1 + c.s.size(c.s.chance(10) ? 60 : 12), "abcXYZ-_0"); t[0] = 'n'; S at; for (int i = 0, n = (int)c.s.draw(3); i < n; i++) at += " " + c.s.text(1, "pq") + "=\"" + c.s.text(c.s.draw(6), "ab c1/") + "a\""; if (c.s.chance(35)) return {"<" + t + at + "/>", "<" + t + at + "></" + t + ">"}; Xml r{"<" + t + at + ">", "<" + t + at + ">"}; for (int i = 0, n = d > 3 ? 0 : (int)c.s.draw(4); i < n; i++) { S tx = c.s.text(c.s.draw(8), "ab \n/1x") + "a"; Xml k = gx(c, d + 1); r.a += tx + k.a; r.b += tx + k.b; } r.a += "</" + t + ">"; r.b += "</" + t + ">"; return r; }
static void xml(Case &c) {
  Xml x = gx(c, 0); char *o = nullptr, *e = expandEmptyXmlTags(&o, x.a.c_str()); if (e || !o || x.b != o) c.fail("expanding \"%s\" gave %s \"%s\", expected \"%s\"", x.a.c_str(), e ? e : "", o ? o : "", x.b.c_str()); free(o); if (x.a != x.b) c.nontrivial(); e = validateXmlStructure(x.b.c_str()); if (e) c.fail("\"%s\": %s", x.b.c_str(), e);
  S bad = x.b; size_t p = bad.find("</"); size_t q = bad.find('>', p); bad[q - 1] ^= 1; if (bad != x.b && !validateXmlStructure(bad.c_str())) c.fail("\"%s\" is taken as well formed", bad.c_str());
  S sp1 = c.s.text(c.s.draw(4), " \n\t"), sp2 = c.s.text(c.s.draw(4), " \n\t"), body = c.s.text(c.s.draw(12), "abc d"); S pre = c.s.text(c.s.draw(9), "xyz <"), f = pre + "<t>" + sp1 + body + sp2 + "</t> tail"; textBoundaryInfo t; e = findTextBetween(&t, f.c_str(), "<t>", "</t>"); if (e) c.fail("findTextBetween(\"%s\"): %s", f.c_str(), e); S in = sp1 + body + sp2, tr = in; while (!tr.empty() && isspace(tr[0])) tr.erase(0, 1); while (!tr.empty() && isspace(tr.back())) tr.pop_back();
  if (S(t.first, t.last) != in || t.len != (int)in.size() || t.offset != (int)pre.size() + 3 || S(t.firstNonBlank, t.lastNonBlank) != tr || t.lenNonBlank != (int)tr.size() || S(t.firstWithBoundary, t.lastWithBoundary) != "<t>" + in + "</t>") c.fail("findTextBetween(\"%s\") found \"%s\"/\"%s\"", f.c_str(), S(t.first, t.last).c_str(), S(t.firstNonBlank, t.lastNonBlank).c_str()); if (!findTextBetween(&t, f.c_str(), "<u>", "</t>") || !findTextBetween(&t, f.c_str(), "<t>", "</u>")) c.fail("findTextBetween found text between boundaries that are not there");
}
static void str(Case &c) {
  S s = c.s.text(c.s.size(30), "abc xyz"); size_t size = 1 + c.s.size(30), len = c.s.size(34); char *b = (char *)malloc(size); memset(b, 'q', size); int r = stringCopy(b, size, s.c_str(), len); S e = s.substr(0, std::min({len, size - 1, s.size()})); if (e != b || r != (int)e.size()) c.fail("stringCopy of %zu from \"%s\" to %zu bytes gave \"%.*s\" (%d), expected \"%s\"", len, s.c_str(), size, (int)size, b, r, e.c_str());
  if (len) { S t = c.s.text(c.s.size(30), "DEF G"); stringCat(b, size, t.c_str(), len); S e2 = e + t.substr(0, std::min(len, size - 1 - e.size())); if (e2 != b) c.fail("stringCat of %zu from \"%s\" to \"%s\" in %zu bytes gave \"%.*s\", expected \"%s\"", len, t.c_str(), e.c_str(), size, (int)size, b, e2.c_str()); }
  memset(b, 'q', size); copyAndTrim(b, size, s.c_str(), len); S e3 = s.substr(0, std::min(len, s.size())); while (!e3.empty() && e3.back() == ' ') e3.pop_back(); e3 = e3.substr(0, size - 1); if (e3 != b) c.fail("copyAndTrim of %zu from \"%s\" to %zu bytes gave \"%.*s\", expected \"%s\"", len, s.c_str(), size, (int)size, b, e3.c_str()); free(b);
  S g = take(mallocAndCopyTrim(s.c_str())), e4 = s; while (!e4.empty() && e4.back() == ' ') e4.pop_back(); while (!e4.empty() && e4[0] == ' ') e4.erase(0, 1); if (g != e4) c.fail("mallocAndCopyTrim(\"%s\") gave \"%s\"", s.c_str(), g.c_str()); if (s.size() > 2) c.nontrivial();
}
// a heap buffer of exactly n bytes, so that a byte past its end is seen
struct Fit { char *p; size_t n; Fit(size_t n_) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, '#', n_ ? n_ : 1); } ~Fit() { free(p); } };
static S commas(long long v) { S d = fmt("%lld", v), o; bool neg = d[0] == '-'; if (neg) d.erase(0, 1); for (size_t i = 0; i < d.size(); i++) { if (i && (d.size() - i) % 3 == 0) o += ','; o += d[i]; } return neg ? "-" + o : o; }
static long long anyLong(Case &c) { long long v = (long long)(c.s.draw(~0ull - 1)); v = c.s.chance(70) ? v >> c.s.draw(62) : v; switch (c.s.draw(9)) { case 0: return LLONG_MIN; case 1: return LLONG_MAX; case 2: { long long p = 1; for (int k = (int)c.s.draw(18); k > 0; k--) p *= 10; return p - (long long)c.s.draw(1); } case 3: { long long p = -1; for (int k = (int)c.s.draw(18); k > 0; k--) p *= 10; return p + (long long)c.s.draw(1); } default: return v; } }
static void words(Case &c) {
  for (int it = 0; it < 6; it++) switch (c.s.draw(7)) {
    case 0: { long long v = anyLong(c); S w = commas(v); size_t n = c.s.chance(40) ? w.size() + c.s.draw(2) : c.s.draw(w.size() + 4); if (!n) n = 1; Fit b(n); int r = longWithCommas(b.p, n, v); c.note("longWithCommas(%lld) into %zu bytes", v, n);
      if (w.size() < n) { if (r != (int)w.size() || w != b.p) c.fail("longWithCommas(%lld) into %zu bytes gave %d \"%.*s\", expected \"%s\"", v, n, r, (int)n, b.p, w.c_str()); } else if (r != -1) c.fail("longWithCommas(%lld) into %zu bytes, too few, gave %d", v, n, r); break; }
    case 1: { int a = (int)anyLong(c), b = (int)anyLong(c), x, y; unsigned long long l = i4toi8(a, b); if (l != ((unsigned long long)(unsigned)b << 32 | (unsigned)a)) c.fail("i4toi8(%d, %d) gave %llx", a, b, l); i8toi4(l, &x, &y); if (x != a || y != b) c.fail("i8toi4 of i4toi8(%d, %d) gave %d, %d", a, b, x, y);
      float f1, f2; memcpy(&f1, &a, 4); memcpy(&f2, &b, 4); long long m = f4toi8(f1, f2); float g1, g2; i8tof4(m, &g1, &g2); if (f1 == f1 && f2 == f2 && (memcmp(&f1, &g1, 4) || memcmp(&f2, &g2, 4))) c.fail("i8tof4 of f4toi8 of words %x, %x", a, b); break; }
    case 2: { S pre = c.s.text(c.s.draw(6), "ab -_."), d = c.s.chance(15) ? S() : fmt("%lld", (long long)c.s.draw(c.s.chance(50) ? 99 : 2147483647)); S post = d.empty() ? S() : c.s.text(c.s.draw(4), "x -.,"); if (!d.empty() && c.s.chance(30)) post += "77", post = "z" + post; S t = pre + d + post; int ix = -7, nd = -7, r = findInt(t.c_str(), &ix, &nd);
      bool neg = !d.empty() && !pre.empty() && pre.back() == '-'; long long want = d.empty() ? 0 : (neg ? -atoll(d.c_str()) : atoll(d.c_str())); int wn = (int)d.size() + neg; if (r != want || nd != wn || (wn && ix != (int)pre.size() - neg)) c.fail("findInt(\"%s\") gave %d at %d, %d characters; expected %lld", t.c_str(), r, ix, nd, want); break; }
    case 3: { S t = c.s.text(c.s.draw(9), "  ab"); int a = -1, b = -1, r = trimPositions(t.c_str(), &a, &b); size_t i = t.find_first_not_of(' '), j = t.find_last_not_of(' '); int wl = i == S::npos ? 0 : (int)(j - i + 1); if (r != wl || (wl && (a != (int)i || b != (int)j)) || (!wl && (a || b))) c.fail("trimPositions(\"%s\") gave %d, %d..%d", t.c_str(), r, a, b);
      if (i != S::npos) { Fit b2(t.size()); memcpy(b2.p, t.data(), t.size()); char *q = stringFortToC(b2.p, t.size()); S g = take(q); if (g != t.substr(0, j + 1)) c.fail("stringFortToC(\"%s\") gave \"%s\"", t.c_str(), g.c_str()); }
      if (trimLength(t.c_str()) != (j == S::npos ? 0 : j + 1)) c.fail("trimLength(\"%s\") gave %zu", t.c_str(), trimLength(t.c_str())); break; }
    case 4: { int n = (int)c.s.draw(6), k = (int)c.s.draw(n); S src; std::vector<S> L; for (int i = 0; i < n; i++) { L.push_back(c.s.text(c.s.draw(5), "abc")); src += L[i] + S(1, 0); } if (!n) break; S want; for (int i = 0; i < k; i++) want += L[i] + S(1, 0);
      Fit in(src.size()); memcpy(in.p, src.data(), src.size()); int r = copyLines(0, 0, in.p, src.size(), k); if (r != (int)want.size()) c.fail("copyLines counts %d characters in %d of %d lines, expected %zu", r, k, n, want.size());
      size_t cap = c.s.chance(60) ? want.size() : c.s.draw(want.size()); if (!cap) break; Fit out(cap); r = copyLines(out.p, cap, in.p, src.size(), k); size_t m = std::min(cap, want.size()); if (r != (int)m || memcmp(out.p, want.data(), m)) c.fail("copyLines of %d lines into %zu bytes gave %d", k, cap, r); break; }
    case 5: { int n = 1 + (int)c.s.draw(6); std::vector<S> f; std::vector<char *> fp; std::vector<int> fl, cs, lj; int col = (int)c.s.draw(3); S want; for (int i = 0; i < n; i++) { f.push_back(c.s.text(c.s.draw(8), "abcXYZ")); fl.push_back((int)f[i].size()); cs.push_back(col); lj.push_back((int)c.s.draw(1)); col += (int)c.s.draw(9); } for (auto &x : f) fp.push_back((char *)x.data());
      want = S(cs[0], ' '); for (int i = 0; i < n; i++) { int w = i < n - 1 ? cs[i + 1] - cs[i] : fl[i], l = std::min(w, fl[i]); want.resize(cs[i], ' '); if (!lj[i]) want += S(w - l, ' '); want += f[i].substr(0, l); }
      size_t cap = c.s.chance(60) ? want.size() + 1 + c.s.draw(3) : 1 + c.s.draw(want.size()); Fit out(cap); int r = toFixedFields(out.p, cap, fp.data(), fl.data(), n, cs.data(), lj.data()); S w2 = want.substr(0, cap - 1);
      if (strnlen(out.p, cap) >= cap || w2 != out.p || r != (int)w2.size() + 1) c.fail("toFixedFields into %zu bytes gave %d \"%.*s\", expected \"%s\"", cap, r, (int)cap, out.p, w2.c_str()); break; }
    case 6: { int v = (int)c.s.draw(100000) - 5; if (isOdd(v) != (v & 1)) c.fail("isOdd(%d)", v); auto up = [](long long a, long long b) { return a <= 0 ? 0 : (a + b - 1) / b; };
      if (numberIntsInBytes(v) != up(v, 4) || numberLongsInBytes(v) != up(v, 8) || numberLongsInInts(v) != up(v, 2) || numberIntsInLongs(v) != (v > 0 ? 2 * v : 0)) c.fail("the word counts of %d are %d, %d, %d, %d", v, numberIntsInBytes(v), numberLongsInBytes(v), numberLongsInInts(v), numberIntsInLongs(v)); break; }
    default: { S a = c.s.text(c.s.draw(12), "abZz/ -9"), b = c.s.chance(60) ? a : c.s.text(c.s.draw(12), "abZz/ -9"); if (c.s.chance(50)) for (auto &x : b) x = c.s.chance(50) ? toupper(x) : tolower(x); size_t n = c.s.chance(70) ? std::min(a.size(), b.size()) : c.s.draw(std::min(a.size(), b.size())); bool eq = lo(a.substr(0, n)) == lo(b.substr(0, n));
      Fit x(a.size() + 1), y(b.size() + 1); strcpy(x.p, a.c_str()); strcpy(y.p, b.c_str()); if ((zstringCompare(x.p, y.p, n) != 0) != eq) c.fail("zstringCompare(\"%s\", \"%s\", %zu) gave %d", a.c_str(), b.c_str(), n, zstringCompare(x.p, y.p, n));
      upperCase(x.p); S u = a; for (auto &ch : u) ch = toupper(ch); if (u != x.p) c.fail("upperCase(\"%s\") gave \"%s\"", a.c_str(), x.p); lowerCase(x.p); if (lo(a) != x.p) c.fail("lowerCase gave \"%s\"", x.p); }
  }
}
static void runC22(Case &c) {
  quiet(); for (int i = 0; i < 6; i++) switch (c.s.weighted({40, 12, 12, 10, 8, 8, 10, 8, 20})) { case 8: c.label("words"); words(c); break; case 0: c.label("delimited"); delimited(c); break; case 1: c.label("base 64"); b64(c); break; case 2: c.label("gzip"); zip(c); break; case 3: c.label("zlib"); zl(c); break; case 4: c.label("repeat"); rep(c); break; case 5: c.label("header strings"); hdr(c); break; case 6: c.label("xml"); xml(c); break; default: c.label("strings"); str(c); }
  c.evals(6);
}
}
static eng::Reg r({"C22", "at least one of: a delimited string holding two pairs or refusing an insertion, an encoding of more than one group, compressed data, repeated elements, several header strings, an XML text with empty tags", runC22, 6000, 120000, "exploration",
  {"values do not contain the delimiter", "a user header of an odd number of ints is stored with four blanks appended"}});
