// Vertical datum information and conversions.
#include "ts.hpp"
extern "C" {
#include "hecdssInternal.h"
#undef min
#undef max
#include "verticalDatum.h"
}
#undef FALSE
#undef TRUE
namespace {
typedef std::string S;
static const double UND = UNDEFINED_VERTICAL_DATUM_VALUE;
struct Vdi { S nat, unit; double navd = UND, ngvd = UND; int en = 0, eg = 0; bool set() const { return !nat.empty(); }
  bool operator==(const Vdi &o) const { return nat == o.nat && unit == o.unit && navd == o.navd && ngvd == o.ngvd && (navd == UND || en == o.en) && (ngvd == UND || eg == o.eg); } };
static S show(const Vdi &v) { return fmt("%s unit %s navd %g%s ngvd %g%s", v.nat.c_str(), v.unit.c_str(), v.navd == UND ? -9999 : v.navd, v.en ? "e" : "", v.ngvd == UND ? -9999 : v.ngvd, v.eg ? "e" : ""); }
static verticalDatumInfo toC(const Vdi &v) { verticalDatumInfo c; initializeVerticalDatumInfo(&c); strcpy(c.nativeDatum, v.nat.c_str()); strcpy(c.unit, v.unit.c_str()); c.offsetToNavd88 = v.navd; c.offsetToNgvd29 = v.ngvd; c.offsetToNavd88IsEstimate = v.en; c.offsetToNgvd29IsEstimate = v.eg; return c; }
static Vdi fromC(const verticalDatumInfo &c) { Vdi v; v.nat = c.nativeDatum; v.unit = c.unit; v.navd = c.offsetToNavd88; v.ngvd = c.offsetToNgvd29; v.en = c.offsetToNavd88IsEstimate; v.eg = c.offsetToNgvd29IsEstimate; return v; }
static S text(const Vdi &v, bool z) { verticalDatumInfo c = toC(v); char *r = nullptr; char *e = verticalDatumInfoToString(&r, &c, z); S s = e || !r ? S("!") + (e ? e : "") : r; if (r) free(r); return s; }
static Vdi genVdi(Case &c) {
  Vdi v; v.nat = c.s.pick<S>({"NGVD-29", "NAVD-88", "OTHER", "Local", ""}); if (v.nat.empty()) { v.nat = c.s.text(1 + c.s.size(15), "abcXYZ-09 _."); for (auto p : {size_t(0), v.nat.size() - 1}) if (v.nat[p] == ' ') v.nat[p] = 'p'; if (v.nat == "UNSET") v.nat = "Z"; }
  v.unit = c.s.pick<S>({"ft", "m"}); auto off = [&] { double d = (double)c.s.range(-20 * 64, 20 * 64) / 64; return c.s.chance(10) ? 0.0 : d; }; if (c.s.chance(75)) { v.navd = off(); v.en = c.s.chance(40); } if (c.s.chance(75)) { v.ngvd = off(); v.eg = c.s.chance(40); } if (v.nat == "NAVD-88") { v.navd = 0; v.en = 0; } if (v.nat == "NGVD-29") { v.ngvd = 0; v.eg = 0; } return v;
}
static const S FT[] = {"ft", "feet", "foot", "FT", "Feet"}, MT[] = {"m", "meter", "meters", "metre", "METRES", "M"};
static void formats(Case &c) {
  for (int it = 0; it < 3; it++) { Vdi v = genVdi(c); Vdi w = v; w.unit = c.s.chance(50) ? v.unit : v.unit == "ft" ? FT[c.s.draw(5)] : MT[c.s.draw(6)]; if (v.set() && (v.navd != UND && v.ngvd != UND)) c.nontrivial();
    if (c.s.chance(40)) { auto micro = [&](double &d) { if (d != UND && d) d = (double)c.s.range(-50000000, 50000000) / 1e6; }; micro(w.navd); micro(w.ngvd); v.navd = w.navd; v.ngvd = w.ngvd; }
    for (int z = 0; z < 2; z++) { S s = text(w, z); verticalDatumInfo o; memset(&o, 0x5a, sizeof o); char *e = stringToVerticalDatumInfo(&o, s.c_str()); if (e) c.fail("%s became %s, which is not understood: %s", show(w).c_str(), s.c_str(), e); Vdi g = fromC(o); Vdi n = v; if (!(g == n)) c.fail("%s became \"%s\", read as %s", show(n).c_str(), s.c_str(), show(g).c_str()); }
    // layout does not matter
    S x = text(v, false), y; for (char ch : x) { if (ch == '\n') { y += c.s.text(c.s.draw(4), " \n\t"); continue; } y += ch; } verticalDatumInfo o; char *e = stringToVerticalDatumInfo(&o, y.c_str()); if (e || !(fromC(o) == v)) c.fail("%s with other white space is read as %s %s", x.c_str(), e ? e : "", show(fromC(o)).c_str());
    // in a header, raw or encoded, after normalisation too
    S h = c.s.chance(50) ? "note:some text;" : ""; S body = c.s.chance(50) ? text(v, true) : x; for (auto &ch : body) if (ch == '\n') ch = ' '; h += S("verticalDatumInfo:") + body + (c.s.chance(70) ? ";" : ""); S h2 = h.back() == ';' && c.s.chance(50) ? " tail:x;" : ""; h += h2; int n; int *uh = stringToUserHeader(h.c_str(), &n); verticalDatumInfo *p = extractVerticalDatumInfoFromUserHeader(uh, n); if (!p || !(fromC(*p) == v)) c.fail("the information in the header \"%s\" is read as %s", h.c_str(), p ? show(fromC(*p)).c_str() : "none"); free(p);
    std::vector<int> big(400); memcpy(big.data(), uh, n * 4); free(uh); int m = n; e = normalizeVdiInUserHeader(big.data(), &m, 400); if (e) c.fail("normalising the header \"%s\": %s", h.c_str(), e); p = extractVerticalDatumInfoFromUserHeader(big.data(), m); if (!p || !(fromC(*p) == v)) c.fail("the information in the normalised header of \"%s\" is read as %s", h.c_str(), p ? show(fromC(*p)).c_str() : "none"); free(p); char *hs = userHeaderToString(big.data(), m); if ((h.substr(0, 4) == "note" && !strstr(hs, "note:some text;")) || (!h2.empty() && !strstr(hs, "tail:x;"))) c.fail("normalising the header \"%s\" lost its text: \"%s\"", h.c_str(), hs); free(hs);
    // any text: no more than an error
    S bad = x; for (int i = 0, k = (int)c.s.range(1, 4); i < k; i++) { size_t q = c.s.draw(bad.size()), l = c.s.size(40); switch (c.s.draw(4)) { case 0: bad.erase(q, l); break; case 1: bad.insert(q, x.substr(c.s.draw(x.size()), l)); break; case 2: bad[q] = c.s.text(1, "<>/\"x 9")[0]; break; default: bad.insert(q, S(c.s.size(300), c.s.text(1, "ab 1<")[0])); } if (bad.empty()) bad = "<"; }
    memset(&o, 0x5a, sizeof o); e = stringToVerticalDatumInfo(&o, bad.c_str()); if (!memchr(o.nativeDatum, 0, sizeof o.nativeDatum) || !memchr(o.unit, 0, sizeof o.unit)) c.fail("a name without end was read from \"%s\"", bad.c_str()); if (!e && S(o.unit) != "ft" && S(o.unit) != "m") c.fail("the unit \"%s\" was read from \"%s\"", o.unit, bad.c_str());
    S be = text(v, true); be[c.s.draw(be.size())] = c.s.text(1, "aZ0*=")[0]; stringToVerticalDatumInfo(&o, be.c_str());
  }
  // units
  double d = (double)c.s.range(-5000, 5000) / 64; int a = (int)c.s.draw(2), b = (int)c.s.draw(3); S ua = a ? MT[c.s.draw(6)] : FT[c.s.draw(5)], ub = b == 2 ? c.s.pick<S>({"cfs", "", "f", "mm", "KM"}) : b ? MT[c.s.draw(6)] : FT[c.s.draw(5)]; if (c.s.chance(30)) ub += "  "; double g = getOffset(d, ua.c_str(), ub.c_str()), ex = b == 2 ? UND : a == b ? d : a ? d / 0.3048 : d * 0.3048; if (!(g == ex || fabs(g - ex) < 1e-9 * fabs(ex))) c.fail("an offset of %g %s for data in \"%s\" is %g, expected %g", d, ua.c_str(), ub.c_str(), g, ex);
}
static S hdrStr(const int *h, int n) { char *p = userHeaderToString(h, n); S s = p; free(p); return s; }
// which datum the values are in: default, then header, then unit
static S effective(Case &c, const S &cur, S &hdr, S &unit, const S &baseUnit) {
  S x[3]; auto other = [&] { return c.s.pick<S>({"NAVD-88", "NGVD-29", "UNSET", "Elsewhere"}); }; int win = (int)c.s.draw(3); for (int i = 0; i < 3; i++) x[i] = i == win ? cur : i < win && c.s.chance(40) ? other() : ""; 
  for (int i = 1; i < 3; i++) if (x[i].compare(0, 1, "N") == 0 && c.s.chance(10)) for (auto &ch : x[i]) ch = (char)tolower(ch); // standard datum names in either case
  zset("VDTM", x[0].empty() ? "UNSET" : x[0].c_str(), 0); if (!x[1].empty()) { S k = "verticalDatum:" + x[1] + ";"; hdr = c.s.chance(50) ? k + hdr : hdr + (hdr.empty() || hdr.back() == ';' ? "" : ";") + k; } unit = baseUnit; if (!x[2].empty()) { bool lc = c.s.chance(15); S U = lc ? "u=" : "U=", W = lc ? "v=" : "V="; unit = c.s.chance(50) ? U + baseUnit + "|" + W + x[2] : W + x[2] + "|" + U + baseUnit; } return cur;
}
static double offOf(const Vdi &v, const S &cur, const S &unit) { if (cur == "UNSET" || !v.set() || cur == v.nat) return 0; double o = cur == "NAVD-88" ? v.navd : cur == "NGVD-29" ? v.ngvd : UND; if (o == UND) return UND; bool vf = v.unit == "ft", df = std::any_of(FT, FT + 5, [&](auto &q) { return q == unit; }), dm = std::any_of(MT, MT + 6, [&](auto &q) { return q == unit; }); if (!df && !dm) return UND; return vf == df ? o : vf ? o * 0.3048 : o / 0.3048; }
static bool near(double a, double b, bool dbl, bool exact) { if (isMiss(a) || isMiss(b)) return isMiss(a) == isMiss(b); if (exact) return a == b; return fabs(a - b) <= (dbl ? 1e-9 : 2e-6) * (fabs(b) + 70); }
struct World { Dss d; Vdi loc; bool haveLoc = false; };
static Vdi conflicting(Case &c, Vdi v) { switch (c.s.draw(4)) { case 0: v.nat = v.nat == "Q1" ? "Q2" : "Q1"; break; case 1: if (v.navd != UND && v.nat != "NAVD-88") v.navd += c.s.pick({0.5, 0.015625, -3.0}); else if (v.ngvd != UND && v.nat != "NGVD-29") v.ngvd += 0.015625; else v.nat = v.nat == "Q3" ? "Q6" : "Q3"; break; case 2: if (v.navd != UND && v.nat != "NAVD-88") v.en ^= 1; else v.nat = v.nat == "Q4" ? "Q6" : "Q4"; break; default: if (v.nat == "NGVD-29") v.nat = "Q5"; else if (v.ngvd == UND) v.ngvd = 2.5; else v.ngvd = UND; } return v; }
static int month(i64 j) { int m = 0; for (int y = 2003; y < 2005; y++) for (int k = 1; k <= 12; k++, m++) if (j >= cal::days(y, k, 1)) continue; else return m; return m; }
struct Ser { S path, unit, hdr; bool irr, dbl, elev; std::map<i64, double> nat; };
static void files(Case &c) {
  World w; if (w.d.openFile(c.path("v.dss"))) c.fail("cannot create"); std::vector<Ser> ss; Vdi V = genVdi(c); int nser = (int)c.s.range(1, 3); bool metric = c.s.chance(40); bool exactW = (V.unit == "m") == metric;
  for (int i = 0; i < nser; i++) { Ser s; s.elev = i == 0 || c.s.chance(60); s.irr = c.s.chance(40); s.dbl = c.s.chance(50); s.path = fmt("/BASIN/LOC/%s//%s/v%d/", s.elev ? c.s.pick<const char *>({"ELEV", "ELEV-POOL", "elevation"}) : c.s.pick<const char *>({"STAGE", "FLOW", "POOL-ELEV", "ELE"}), s.irr ? "IR-Month" : "1Day", i); s.unit = metric ? MT[c.s.draw(6)] : FT[c.s.draw(5)]; s.hdr = c.s.pick<S>({"", "", "note:abc;", "plain text", "a"}); ss.push_back(s); }
  i64 T0 = cal::days(2003, 2, 10) * cal::DAY; int nops = (int)c.s.range(2, 8); bool any = false;
  for (int op = 0; op < nops; op++) { Ser &s = ss[c.s.draw(ss.size())]; bool write = c.s.chance(60) || s.nat.empty(); zset("VDOW", "", 0);
    if (write) {
      int n = (int)c.s.range(1, 12); i64 st = T0 + c.s.range(0, 60) * cal::DAY; std::vector<double> v(n); for (auto &x : v) x = c.s.chance(15) ? c.s.pick({MISS(), -901.0, -902.0}) : (double)c.s.range(-2000, 40000) / 64;
      int use = (int)c.s.weighted({35, 45, 20}); Vdi dv; if (use == 1) dv = w.haveLoc && s.elev ? w.loc : V; if (use == 2) dv = conflicting(c, w.haveLoc ? w.loc : V); bool ow = use == 2 && c.s.chance(40) && w.haveLoc; if (use == 2 && !w.haveLoc) use = 1, dv = V; const Vdi target = use ? dv : w.haveLoc ? w.loc : Vdi();
      // a different native datum before any data of this series exist is for the library to settle
      S cur = c.s.pick<S>({"UNSET", "NAVD-88", "NGVD-29", "native", "Nowhere"}); if (cur == "native") cur = target.set() ? target.nat : "UNSET"; if (cur == "OTHER") cur = "UNSET"; bool badUnit = c.s.chance(6); S base = badUnit ? "cfs" : s.unit, unit, hdr = s.hdr; bool viaLoc = use && c.s.chance(35); if (use && !viaLoc) hdr += (hdr.empty() || hdr.back() == ';' ? "" : ";") + S("verticalDatumInfo:") + text(dv, c.s.chance(60)) + ";";
      effective(c, cur, hdr, unit, base); if (!s.elev) unit = base; if (hdr.size() > 1500) continue; if (ow) zset("VDOW", "", 1);
      zStructTimeSeries *t = zstructTsNew(s.path.c_str()); std::vector<float> f(v.begin(), v.end()); std::vector<double> dd = v; if (s.dbl) t->doubleValues = dd.data(); else t->floatValues = f.data(); t->numberValues = n; S u = unit, ty = "INST-VAL"; u.push_back(0); t->units = &u[0]; t->type = &ty[0]; std::vector<int> tm; if (s.irr) { for (int i = 0; i < n; i++) tm.push_back((int)((st + i * cal::DAY) / 60)); t->times = tm.data(); } else { int j, q; splitT(st, j, q); t->startJulianDate = j; t->startTimeSeconds = q; }
      int hn; int *hh = stringToUserHeader(hdr.c_str(), &hn); t->userHeader = hh; t->userHeaderNumber = hn; if (viaLoc) { S sp = S(c.s.chance(50) ? "keep:1;" : c.s.chance(50) ? "free text" : ""); if (!sp.empty() && sp.back() != ';') sp += ";"; sp += "verticalDatumInfo:" + text(dv, true) + (c.s.chance(50) ? ";" : ""); t->locationStruct->supplemental = strdup(sp.c_str()); t->locationStruct->allocated[zSTRUCT_otherInformation] = 1; } else if (use && c.s.chance(30)) { t->locationStruct->supplemental = strdup(c.s.pick<S>({"other info", "k:v;", "x"}).c_str()); t->locationStruct->allocated[zSTRUCT_otherInformation] = 1; }
      bool locGiven = t->locationStruct->supplemental != nullptr; std::vector<double> before(v); int status = ztsStore(w.d.ifltab, t, 0);
      for (int i = 0; i < n; i++) if ((s.dbl ? dd[i] : (double)f[i]) != (s.dbl ? v[i] : (double)(float)v[i])) c.fail("a store changed the caller's values"); if ((s.dbl && t->doubleValues != dd.data()) || (!s.dbl && t->floatValues != f.data())) c.fail("a store left its own array in the caller's structure");
      t->floatValues = 0; t->doubleValues = 0; t->units = t->type = 0; t->times = 0; if (!t->allocated[zSTRUCT_userHeader]) t->userHeader = 0; zstructFree(t); free(hh);
      int found = 0; { auto blk = [&](i64 t) { return s.irr ? month((t - 1) / cal::DAY) : 0; }; for (auto &k : s.nat) if (blk(k.first) >= blk(st) && blk(k.first) <= blk(st + (n - 1) * cal::DAY)) found = std::max(found, isMiss(k.second) ? 1 : 2); } c.note("store %s n%d at %d in %s (%s) use %d [%s]%s%s -> %d", s.path.c_str(), n, (int)((st - T0) / cal::DAY), cur.c_str(), unit.c_str(), use, show(dv).c_str(), ow ? " overwrite" : "", viaLoc ? " via location" : "", status);
      bool err = status != 0;
      if (!s.elev) { if (err) c.fail("storing %s failed with %d", s.path.c_str(), status); for (int i = 0; i < n; i++) s.nat[st + i * cal::DAY] = s.dbl ? v[i] : (double)(float)v[i]; if (locGiven && viaLoc && !w.haveLoc) { w.haveLoc = true; w.loc = dv; } if (locGiven && !viaLoc && !w.haveLoc) return; if (locGiven && ow) return; s.hdr = s.hdr; }
      else {
        double off = offOf(target, cur, base); bool mustFail = off == UND || (target.set() && base == "cfs"), free_ = false;
        if (use == 2 && !ow) mustFail = true; if (use == 1 && !w.haveLoc) { if (found == 2) mustFail = true; else if (found == 1) free_ = true; }
        if (!target.set() && cur != "UNSET") { free_ = true; if (cur == "Nowhere") mustFail = false; }
        if (s.elev && base == "cfs" && !mustFail) return; if (mustFail) { c.label("refused"); if (!err) c.fail("storing %s in datum %s with [%s] (location [%s]) gave %d, expected an error", s.path.c_str(), cur.c_str(), show(dv).c_str(), w.haveLoc ? show(w.loc).c_str() : "none", status); }
        else if (free_) { if (!err) return; }
        else { if (err) c.fail("storing %s in datum %s with [%s] (location [%s]) failed with %d", s.path.c_str(), cur.c_str(), show(dv).c_str(), w.haveLoc ? show(w.loc).c_str() : "none", status); if (off) { c.label("shifted"); c.nontrivial(); any = true; } for (int i = 0; i < n; i++) s.nat[st + i * cal::DAY] = isMiss(v[i]) ? v[i] : s.dbl ? v[i] - off : (double)((float)v[i] - (float)off); if (use && (ow || !w.haveLoc)) { w.haveLoc = true; w.loc = dv; exactW = (dv.unit == "m") == metric; } else if (!use && locGiven && !w.haveLoc) return; }
      }
    }
    // read back
    Ser &r = ss[c.s.draw(ss.size())]; if (r.nat.empty()) continue; S cur = c.s.pick<S>({"UNSET", "NAVD-88", "NGVD-29", "native", "Nowhere"}); if (cur == "native") cur = w.haveLoc ? w.loc.nat : "UNSET"; zset("VDTM", cur.c_str(), 0); zset("VDOW", "", 0);
    double off = offOf(w.haveLoc ? w.loc : Vdi(), cur, r.unit); if (cur != "UNSET" && !w.haveLoc) off = UND; if (cur == "OTHER" && w.haveLoc) off = 0; if (!r.elev) off = 0; bool asD = c.s.chance(40); TsQ q; q.all = true; q.dbl = asD ? 2 : 0; if (!r.irr) q.flag = -1; TsOut o = tsGet(w.d, r.path, q); bool err = o.status != 0; c.note("read %s in %s -> %d", r.path.c_str(), cur.c_str(), o.status);
    if (off == UND) { c.label("not convertible"); if (!err) c.fail("retrieving %s in datum %s gave %d, expected an error (location [%s])", r.path.c_str(), cur.c_str(), o.status, w.haveLoc ? show(w.loc).c_str() : "none"); continue; }
    bool allMiss = true; for (auto &k : r.nat) allMiss &= isMiss(k.second); if (allMiss) continue;
    if (err || !o.haveTimes) c.fail("retrieving %s in datum %s failed with %d (location [%s])", r.path.c_str(), cur.c_str(), o.status, w.haveLoc ? show(w.loc).c_str() : "none"); bool wide = r.dbl || asD; int hit = 0;
    for (int i = 0; i < o.nv; i++) { auto it = r.nat.find(o.t[i]); double nv = it == r.nat.end() ? MISS() : it->second, e = isMiss(nv) ? nv : nv + off; bool exact = exactW || off == 0; if (it != r.nat.end()) hit++; if (!near(o.v[i], e, r.dbl && wide, exact)) c.fail("%s at day %d in datum %s is %.10g, expected %.10g (native %.10g, location [%s])", r.path.c_str(), (int)((o.t[i] - T0) / cal::DAY), cur.c_str(), o.v[i], e, nv, w.haveLoc ? show(w.loc).c_str() : "none"); }
    S hs = hdrStr(o.uh.data(), (int)o.uh.size()); if (r.elev && cur != "UNSET") { c.label("retrieved in a datum"); char *hp = &hs[0]; char *a = extractFromDelimitedString(&hp, "verticalDatum", ":", 1, 0, ';'); S as = a ? a : "(none)"; free(a); if (as != cur) c.fail("the header of %s retrieved in %s names the datum %s: \"%s\"", r.path.c_str(), cur.c_str(), as.c_str(), hs.c_str()); verticalDatumInfo *p = extractVerticalDatumInfoFromUserHeader(o.uh.data(), (int)o.uh.size()); if (!p || !(fromC(*p) == w.loc)) c.fail("the header of %s retrieved in %s gives the information %s, expected %s", r.path.c_str(), cur.c_str(), p ? show(fromC(*p)).c_str() : "none", show(w.loc).c_str()); free(p); }
    else if (hs.find("verticalDatum:") != S::npos && r.elev) c.fail("the header of %s holds \"%s\" although no datum was asked for", r.path.c_str(), hs.c_str());
    // the location record
    if (w.haveLoc) { zStructLocation *l = zstructLocationNew(r.path.c_str()); zlocationRetrieve(w.d.ifltab, l); char *sp = l->supplemental ? extractFromDelimitedString(&l->supplemental, "verticalDatumInfo", ":", 1, 0, ';') : nullptr; verticalDatumInfo p; if (!sp || stringToVerticalDatumInfo(&p, sp) || !(fromC(p) == w.loc)) c.fail("the location holds \"%s\", expected %s", l->supplemental ? l->supplemental : "", show(w.loc).c_str()); free(sp); zstructFree(l); }
  }
  (void)any;
}
static void paired(Case &c) {
  Dss d; if (d.openFile(c.path("p.dss"))) c.fail("cannot create"); Vdi V = genVdi(c); bool metric = c.s.chance(40); bool exact = (V.unit == "m") == metric; int kind = (int)c.s.draw(6); static const char *C[] = {"ELEV-FLOW", "STAGE-ELEV", "ELEV-ELEV", "elev-stor;area", "FLOW-STAGE", "STOR-ELEVATION"}; static const int K[] = {1, 2, 3, 1, 0, 2}; bool ie = K[kind] & 1, de = K[kind] & 2; S path = fmt("/B/LOC/%s///V/", C[kind]);
  int no = (int)c.s.range(1, 9), nc = (int)c.s.range(1, 3); bool dbl = c.s.chance(50); std::vector<double> o(no), v(no * nc); for (auto &x : o) x = (double)c.s.range(-2000, 20000) / 64; for (auto &x : v) x = (double)c.s.range(-2000, 20000) / 64; std::vector<double> no_(o), nv_(v); S ub = metric ? MT[c.s.draw(6)] : FT[c.s.draw(5)], ui = ub, ud = ub, hdr = c.s.pick<S>({"", "note:abc;", "plain text"}); S ci, cd; if (!ie) ui = "FLOW"; if (!de) ud = "FLOW"; bool viaLoc = c.s.chance(40); if (!viaLoc) hdr += (hdr.empty() || hdr.back() == ';' ? "" : ";") + S("verticalDatumInfo:") + text(V, true) + ";"; auto gen = [&] { S x = c.s.pick<S>({"NAVD-88", "UNSET", "NGVD-29", V.nat, "Nowhere"}); return x == "OTHER" ? S("UNSET") : x; };
  zset("VDOW", "", 0); ci = cd = gen(); int how = (int)c.s.draw(3); if (how == 0) zset("VDTM", ci.c_str(), 0); else { zset("VDTM", c.s.pick<const char *>({"UNSET", "NAVD-88"}), 0); if (how == 1) hdr += (hdr.empty() || hdr.back() == ';' ? "" : ";") + S("verticalDatum:") + ci + ";"; else { cd = gen(); if (ie) ui = "U=" + ub + "|V=" + ci; if (de) ud = "U=" + ub + "|V=" + cd; } }
  double oi = ie ? offOf(V, ci, ub) : 0, od = de ? offOf(V, cd, ub) : 0; zStructPairedData *p = zstructPdNew(path.c_str()); std::vector<float> fo(o.begin(), o.end()), fv(v.begin(), v.end()); if (dbl) p->doubleOrdinates = o.data(), p->doubleValues = v.data(); else p->floatOrdinates = fo.data(), p->floatValues = fv.data(); p->numberOrdinates = no; p->numberCurves = nc; S t1 = "Linear", t2 = "Linear"; S ui0 = ui, ud0 = ud; ui.push_back(0); ud.push_back(0); p->unitsIndependent = &ui[0]; p->unitsDependent = &ud[0]; p->typeIndependent = &t1[0]; p->typeDependent = &t2[0]; int hn; int *hh = stringToUserHeader(hdr.c_str(), &hn); p->userHeader = hh; p->userHeaderNumber = hn;
  if (!p->locationStruct) { p->locationStruct = zstructLocationNew(path.c_str()); p->allocated[zSTRUCT_PD_locationStruct] = 1; } if (viaLoc) { p->locationStruct->supplemental = strdup((S(c.s.chance(50) ? "keep:1;" : "") + "verticalDatumInfo:" + text(V, true) + (c.s.chance(50) ? ";" : "")).c_str()); p->locationStruct->allocated[zSTRUCT_otherInformation] = 1; } else if (c.s.chance(40)) { p->locationStruct->supplemental = strdup("other info"); p->locationStruct->allocated[zSTRUCT_otherInformation] = 1; }
  int st = zpdStore(d.ifltab, p, 0); c.note("store %s in %s/%s (%s) [%s] -> %d", path.c_str(), ci.c_str(), cd.c_str(), ub.c_str(), show(V).c_str(), st); bool changed = false; for (int i = 0; i < no; i++) changed |= (dbl ? o[i] : fo[i]) != (dbl ? no_[i] : (float)no_[i]); for (int i = 0; i < no * nc; i++) changed |= (dbl ? v[i] : fv[i]) != (dbl ? nv_[i] : (float)nv_[i]); if (changed || (dbl ? p->doubleValues != v.data() || p->doubleOrdinates != o.data() : p->floatValues != fv.data() || p->floatOrdinates != fo.data())) c.fail("a store changed the caller's values");
  p->doubleOrdinates = p->doubleValues = 0; p->floatOrdinates = p->floatValues = 0; p->unitsIndependent = p->unitsDependent = p->typeIndependent = p->typeDependent = 0; if (!p->allocated[zSTRUCT_userHeader]) p->userHeader = 0; zstructFree(p); free(hh);
  bool err = st != 0; if (oi == UND || od == UND) { c.label("refused"); if (!err) c.fail("storing %s in %s/%s gave %d, expected an error ([%s])", path.c_str(), ci.c_str(), cd.c_str(), st, show(V).c_str()); if (zcheck(d.ifltab, path.c_str()) == 0) c.fail("a refused store left a record"); return; }
  if (st) c.fail("storing %s in %s/%s failed with %d ([%s])", path.c_str(), ci.c_str(), cd.c_str(), st, show(V).c_str()); if (oi || od) { c.label("shifted"); c.nontrivial(); } if (ie || de) c.label("paired elevations"); 
  auto nat = [&](double x, double off) { return dbl ? x - off : (double)(float)(x - off); };
  bool haveV = ie || de || viaLoc; for (int it = 0; it < 3; it++) { S cur = gen(); zset("VDTM", cur.c_str(), 0); double qi = ie ? offOf(V, cur, ub) : 0, qd = de ? offOf(V, cur, ub) : 0; int ask = c.s.pick({0, 1, 2}); p = zstructPdNew(path.c_str()); st = zpdRetrieve(d.ifltab, p, ask); err = st != 0; if (qi == UND || qd == UND) { if (!err) c.fail("retrieving %s in %s gave %d, expected an error", path.c_str(), cur.c_str(), st); zstructFree(p); continue; } if (st || !haveV + 0 > 1) c.fail("retrieving %s in %s failed with %d ([%s])", path.c_str(), cur.c_str(), st, show(V).c_str());
    if (p->numberOrdinates != no || p->numberCurves != nc) c.fail("sizes"); bool gd = p->doubleValues != 0; for (int i = 0; i < no; i++) { double g = gd ? p->doubleOrdinates[i] : p->floatOrdinates[i], e = nat(no_[i], oi) + qi; if (!near(g, e, dbl && gd, exact || (!oi && !qi))) c.fail("ordinate %d of %s in %s is %.10g, expected %.10g", i, path.c_str(), cur.c_str(), g, e); } for (int i = 0; i < no * nc; i++) { double g = gd ? p->doubleValues[i] : p->floatValues[i], e = nat(nv_[i], od) + qd; if (!near(g, e, dbl && gd, exact || (!od && !qd))) c.fail("value %d of %s in %s is %.10g, expected %.10g", i, path.c_str(), cur.c_str(), g, e); }
    S hs = hdrStr(p->userHeader, p->userHeader ? p->userHeaderNumber : 0); if ((ie || de) && cur != "UNSET") { char *hp = &hs[0]; char *a = extractFromDelimitedString(&hp, "verticalDatum", ":", 1, 0, ';'); S as = a ? a : "(none)"; free(a); if (as != cur) c.fail("the header of %s retrieved in %s names the datum %s: \"%s\"", path.c_str(), cur.c_str(), as.c_str(), hs.c_str()); verticalDatumInfo *q = extractVerticalDatumInfoFromUserHeader(p->userHeader, p->userHeaderNumber); if (!q || !(fromC(*q) == V)) c.fail("the header of %s retrieved in %s gives the information %s", path.c_str(), cur.c_str(), q ? show(fromC(*q)).c_str() : "none"); free(q); }
    zstructFree(p); }
}
static void runC20(Case &c) { quiet(); zset("VDTM", "UNSET", 0); zset("VDOW", "", 0); int k = (int)c.s.weighted({50, 30, 20}); c.label(k == 0 ? "time series" : k == 1 ? "formats" : "paired data"); try { if (k == 0) files(c); else if (k == 1) formats(c), c.evals(3); else paired(c); } catch (...) { zset("VDTM", "UNSET", 0); zset("VDOW", "", 0); throw; } zset("VDTM", "UNSET", 0); zset("VDOW", "", 0); }
}
static eng::Reg r({"C20", "values were shifted by a non-zero offset at a store, or information with both offsets was converted", runC20, 4000, 60000, "exploration",
  {"datum names of 1 to 16 characters without XML special characters", "offsets of at most six decimals", "a location given with the data replaces an existing one only when overwriting is allowed (VDOW)"}});
