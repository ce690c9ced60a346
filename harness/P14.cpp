#include "ref.hpp"
using namespace ref; using mc::Ctx; using mc::fail; using mc::fmt;
static std::vector<int64_t> instants (bool th)
{
  std::vector<int64_t> v;
  std::vector<int64_t> secs = {INT64_MIN / 1000000000, -9214646400, -9214646399, -2208988801, -2208988800, -86401, -86400, -86399, -60, -59, -2, -1, 0, 1, 59, 60, 9999, 86399, 86400, 951782399, 951782400, 1483228799, 1483228800,
                               1767225599, 4102444799, 4107542400, 9223372035, 9223372036};
  if (th) for (int y = 1678; y <= 2262; y += 3) { secs.push_back (days_from_civil (y, 1, 1) * 86400); secs.push_back (days_from_civil (y, 1, 1) * 86400 - 1); secs.push_back (days_from_civil (y, 3, 1) * 86400 - 1); }
  std::vector<int64_t> nss = {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 123456, 999000, 999999, 1000000, 9000000, 10000000, 99999999, 100000000, 123456789, 499999999, 500000000, 500000500, 854775807, 900000000, 999000000, 999999000, 999999499, 999999500, 999999998, 999999999};
  for (auto s : secs) for (auto n : nss)
  {
    i128 t = (i128)s * 1000000000 + n;
    if (t >= INT64_MIN && t <= INT64_MAX) v.push_back ((int64_t)t);
    t = (i128)s * 1000000000 - n;
    if (n && t >= INT64_MIN && t <= INT64_MAX) v.push_back ((int64_t)t);
  }
  for (int64_t k = 0; k < 3; k++) { v.push_back (INT64_MIN + k); v.push_back (INT64_MAX - k); }
  std::sort (v.begin (), v.end ()); v.erase (std::unique (v.begin (), v.end ()), v.end ());
  return v;
}
// printed form: kind of subseconds 0 none 1 micro 2 nano
static int subkind (int sub, uint32_t ns)
{
  bool us = ns / 1000, any = ns, frac = ns % 1000;
  switch (sub)
  {
  case NONE: return 0;
  case MICRO: return 1;
  case NANO: return 2;
  case MICRO_NONE: return us ? 1 : 0;
  case NANO_NONE: return any ? 2 : 0;
  case NANO_MICRO: return frac ? 2 : 1;
  default: return !any ? 0 : frac ? 2 : 1;
  }
}
static bytes expect (int64_t t, int f, int sub, i128 *denoted)
{
  bytes fr;
  if (f == NANOSECONDEPOCH) { *denoted = t; return fmt ("%lld", (long long)t); }
  if (f == UNIXEPOCH)
  {
    i128 a = t < 0 ? -(i128)t : (i128)t;
    int64_t s = (int64_t)(a / 1000000000); uint32_t n = (uint32_t)(a % 1000000000);
    int k = subkind (sub, n);
    if (k == 0) n = 0; if (k == 1) n -= n % 1000;
    i128 den = (i128)s * 1000000000 + n;
    *denoted = t < 0 ? -den : den;
    bytes o = fmt ("%s%lld", t < 0 && (s || k) ? "-" : "", (long long)s);
    if (k == 1) o += fmt (".%06u", n / 1000); if (k == 2) o += fmt (".%09u", n);
    return o;
  }
  Civil c = civil (t);
  int k = subkind (sub, c.nsec);
  uint32_t n = k == 0 ? 0 : k == 1 ? c.nsec - c.nsec % 1000 : c.nsec;
  *denoted = (i128)t - (c.nsec - n);
  if (k == 1) fr = fmt (".%06u", n / 1000); if (k == 2) fr = fmt (".%09u", n);
  bytes tod = fmt ("%02d:%02d:%02d", c.hour, c.min, c.sec) + fr;
  bytes md = fmt ("%04lld-%02d-%02d", (long long)c.year, c.month, c.mday), doy = fmt (" (%03d)", c.yday);
  switch (f)
  {
  case ISOMONTHDAY: return md + "T" + tod;
  case ISOMONTHDAY_Z: return md + "T" + tod + "Z";
  case ISOMONTHDAY_DOY: return md + "T" + tod + doy;
  case ISOMONTHDAY_DOY_Z: return md + "T" + tod + "Z" + doy;
  case ISOMONTHDAY_SPACE: return md + " " + tod;
  case ISOMONTHDAY_SPACE_Z: return md + " " + tod + "Z";
  default: return fmt ("%04lld,%03d,", (long long)c.year, c.yday) + tod;
  }
}
static int64_t P (const bytes &s) { Buf b (s + bytes (1, 0)); int64_t r = ms_timestr2nstime (b.p); return r; }
int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P14";
  cfg.rule = "the printed text equals the one composed from a reference calendar (or signed decimal) and parsing it gives the instant truncated to the printed resolution; parsing equals a reference reading of the fields, with refusal exactly when a field is out of range or the form is not one of the documented ones";
  cfg.assumptions = {"parse back is required of the formats the parser documents (ISO month-day, SEED ordinal, Unix epoch); fractions of at most nine digits; reserved time values excluded",
                     "truncation of epoch-second forms is of the printed decimal digits; for calendar forms of the clock reading"};
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  auto T = instants (th);
  cfg.scenarios.push_back ({"print-parse", [=] (Ctx &c) {
    int64_t t = c.of (T);
    for (int f = 0; f <= 8; f++) for (int sub = 0; sub <= 6; sub++)
    {
      char buf[40]; memset (buf, 0x55, sizeof buf);
      Buf out (bytes (37, 'U'));
      char *r = ms_nstime2timestr (t, out.p, (ms_timeformat_t)f, (ms_subseconds_t)sub);
      if (r != out.p) fail ("printing %lld in format %d/%d is refused", (long long)t, f, sub);
      i128 dd; bytes e = expect (t, f, sub, &dd); int64_t den = (int64_t)dd;
      if (e != r) fail ("%lld in format %d, subseconds %d prints '%s', expected '%s'", (long long)t, f, sub, r, e.c_str ());
      c.step ();
      if (f == UNIXEPOCH || f == ISOMONTHDAY || f == ISOMONTHDAY_Z || f == ISOMONTHDAY_SPACE || f == ISOMONTHDAY_SPACE_Z || f == SEEDORDINAL)
      {
        if (den != dd || den == NSTERROR || den == NSTUNSET || (f != UNIXEPOCH && civil (den).year < 1678)) continue;
        if (f == UNIXEPOCH && e.size () == 4 && e[0] != '-') { e = "+" + e; strcpy (r, e.c_str ()); } // four digits read as a year unless signed
        int64_t b = ms_timestr2nstime (r);
        if (b != den) fail ("'%s' (printed from %lld) parses to %lld, expected %lld", r, (long long)t, (long long)b, (long long)den);
        if (f == SEEDORDINAL && (b = ms_seedtimestr2nstime (r)) != den) fail ("'%s' parses as SEED time to %lld, expected %lld", r, (long long)b, (long long)den);
        if (f < 6 && (b = ms_mdtimestr2nstime (r)) != den) fail ("'%s' parses as month-day time to %lld, expected %lld", r, (long long)b, (long long)den);
        c.step ();
      }
      Buf out2 (bytes (37, 'U'));
      if (f == ISOMONTHDAY || f == ISOMONTHDAY_DOY || f == ISOMONTHDAY_SPACE)
      {
        char *z = ms_nstime2timestrz (t, out2.p, (ms_timeformat_t)f, (ms_subseconds_t)sub);
        if (!z || expect (t, f + 1, sub, &dd) != z) fail ("%lld in Z format %d, subseconds %d prints '%s'", (long long)t, f, sub, z ? z : "(null)");
      }
    }
    c.state (mc::Hash ().i (t)); c.nontriv ();
  }, fmt ("%zu instants (either side of the epoch, year ends, leap days, limits; nanosecond patterns) x 9 formats x 7 subsecond options", T.size ())});

  // month-day and ordinal forms from fields
  cfg.scenarios.push_back ({"parse-fields", [=] (Ctx &c) {
    static const int Y[] = {1677, 1678, 1900, 1969, 1970, 2000, 2023, 2262, 2263}, D[] = {0, 1, 9, 28, 29, 30, 31, 32}, H[] = {0, 9, 23, 24}, M[] = {0, 59, 60}, S[] = {0, 59, 60, 61};
    static const char *F[] = {"", ".0", ".5", ".05", ".123", ".999999", ".000001", ".123456789", ".000000001", ".999999999"};
    int form = c.pick (4); // 0 month-day, 1 ISO ordinal, 2 SEED ordinal, 3 SEED ordinal with colons
    int y = c.of (Y), nf = 1 + c.pick (form ? 5 : 6); // fields given
    if (form == 1 && nf == 1) nf = 2;
    if (form == 0 && nf == 2) nf = 3; // YYYY-MM reads as ordinal
    static const int MO[] = {0, 1, 2, 3, 6, 12, 13}, J[] = {0, 1, 60, 101, 102, 365, 366, 367};
    std::vector<int> mons (MO, MO + 7), days (D, D + 8), js (J, J + 8), hs (H, H + 4), ms (M, M + 3), ss (S, S + 4);
    std::vector<int> one = {1}, zero = {0};
    int hasday = form ? nf >= 2 : nf >= 3; int hi = form ? 3 : 4;
    char sep = form == 2 ? ',' : form == 3 ? ',' : c.flip () ? ' ' : 'T';
    char ds = form == 0 && c.flip () ? '/' : form <= 1 ? '-' : ',';
    char ts = form == 2 ? ',' : ':';
    bool z = c.flip ();
    int width = c.flip (); // zero padded or not
    for (int mo : form == 0 && hasday ? mons : one) for (int d : hasday ? (form ? js : days) : one) for (int h : nf >= hi ? hs : zero) for (int mi : nf >= hi + 1 ? ms : zero) for (int s : nf >= hi + 2 ? ss : zero)
      for (const char *f : F)
      {
        if (*f && nf < hi + 2) break;
        bytes str = fmt ("%04d", y);
        if (hasday && form == 0) str += fmt (width ? "%c%02d%c%02d" : "%c%d%c%d", ds, mo, ds, d);
        if (hasday && form) str += fmt (width ? "%c%03d" : "%c%d", ds, d);
        if (nf >= hi) str += fmt (width ? "%c%02d" : "%c%d", sep, h);
        if (nf >= hi + 1) str += fmt (width ? "%c%02d" : "%c%d", ts, mi);
        if (nf >= hi + 2) str += fmt (width ? "%c%02d" : "%c%d", ts, s);
        str += f;
        if (z) str += "Z";
        uint32_t ns = 0; for (int i = 1, w = 100000000; f[0] && f[i]; i++, w /= 10) ns += (f[i] - '0') * w;
        bool ok = y >= 1678 && y <= 2262 && h <= 23 && mi <= 59 && s <= 60 && (form ? d >= 1 && d <= ydays (y) : mo >= 1 && mo <= 12 && d >= 1 && d <= mdays (y, mo));
        i128 e = ok ? (form ? epoch_ns (y, d, h, mi, s, ns) : epoch_md (y, mo, d, h, mi, s, ns)) : 0;
        if (e > INT64_MAX) ok = false;
        int64_t want = ok ? (int64_t)e : NSTERROR, got;
        if (!(z && nf == 1)) // a bare year is four digits
        {
          got = P (str);
          if (got != want) fail ("'%s' parses to %lld, expected %lld%s", str.c_str (), (long long)got, (long long)want, ok ? "" : " (refused)");
        }
        got = form ? ms_seedtimestr2nstime (str.c_str ()) : ms_mdtimestr2nstime (str.c_str ());
        if (got != want) fail ("'%s' parses with the %s routine to %lld, expected %lld%s", str.c_str (), form ? "SEED" : "month-day", (long long)got, (long long)want, ok ? "" : " (refused)");
        c.step (); if (!ok) c.nontriv ();
      }
    c.state (mc::Hash ().i (form).i (y).i (nf).i (sep).i (ds).i (z).i (width));
  }, "4 documented forms, 1..7 fields given, separators, optional Z, zero padding on and off, boundary and out-of-range values of every field, ten fractions"});
  // delimiters of the two specific routines, omitted fields
  cfg.scenarios.push_back ({"delimiters", [=] (Ctx &c) {
    const char *dl = "-,/:."; const char *dh = "-,/:.Tt "; const char *sl = "-,:."; const char *sh = "-,:.Tt ";
    int seed = c.pick (2);
    int n = c.pick (7 - seed); // fields after the year, counting the fraction
    bytes s = "2012";
    static const int vm[] = {11, 7, 13, 5, 59}, vs[] = {311, 13, 5, 59};
    for (int i = 0; i < n && i < 5 - seed; i++)
    {
      bool daysep = i == (seed ? 1 : 2);
      const char *set = seed ? (daysep ? sh : sl) : (daysep ? dh : dl);
      s += set[c.pick (strlen (set))];
      s += fmt ("%02d", seed ? vs[i] : vm[i]);
    }
    uint32_t ns = 0;
    if (n == 6 - seed) { s += ".25"; ns = 250000000; }
    int q[5] = {1, 1, 0, 0, 0}; if (seed) { q[1] = 0; }
    for (int i = 0; i < n && i < 5 - seed; i++) q[i] = seed ? vs[i] : vm[i];
    int64_t want = seed ? (int64_t)epoch_ns (2012, q[0], q[1], q[2], q[3], ns) : (int64_t)epoch_md (2012, q[0], q[1], q[2], q[3], q[4], ns);
    int64_t got = seed ? ms_seedtimestr2nstime (s.c_str ()) : ms_mdtimestr2nstime (s.c_str ());
    if (got != want) fail ("'%s' parses with the %s routine to %lld, expected %lld", s.c_str (), seed ? "SEED" : "month-day", (long long)got, (long long)want);
    c.step (); c.nontriv (); c.state (mc::Hash ().s (s).i (seed));
  }, "every documented delimiter in every position, every number of fields"});
  // nothing to read: every short string that does not begin with a number
  cfg.scenarios.push_back ({"no number", [=] (Ctx &c) {
    static const char al[] = "-+,/:.TtZ xN\n"; bytes s; int n = c.pick (4); for (int i = 0; i < n; i++) s += al[c.pick (sizeof al - 1)];
    static const char *tl[] = {"", "x", "T", "Z", "x2020", "T2020-01-01", "NaN", "inf", "0x"}; bytes t = s + c.of (tl);
    bool sign = false; size_t k = t.find_first_not_of (" \n"); if (k != bytes::npos && (t[k] == '-' || t[k] == '+')) k++, sign = true; // a number may have a sign
    if (k != bytes::npos && k < t.size () && isdigit ((unsigned char)t[k])) { if (!sign) return; }
    bool num = k != bytes::npos && k < t.size () && (isdigit ((unsigned char)t[k]) || (t[k] == '.' && k + 1 < t.size () && isdigit ((unsigned char)t[k + 1])));
    if (num) return;
    int64_t a = ms_mdtimestr2nstime (t.c_str ()), b = ms_seedtimestr2nstime (t.c_str ()), g = P (t);
    if (a != NSTERROR || b != NSTERROR || g != NSTERROR) fail ("'%s' is read as a time: %lld (month-day), %lld (SEED), %lld", t.c_str (), (long long)a, (long long)b, (long long)g);
    c.step (); c.nontriv (); c.state (mc::Hash ().s (t));
  }, "every string of up to 3 of 13 characters with 9 endings that holds no number to begin with: refused"});
  // epoch values
  cfg.scenarios.push_back ({"epoch", [=] (Ctx &c) {
    static const char *I[] = {"0", "1", "9", "59", "999", "1000", "1970", "2005", "9999", "00001", "86399", "1483228800", "9223372035", "9223372036", "9223372037", "9999999999", "99999999999", "9223372036854775807", "18446744073"};
    static const char *F[] = {"", ".", ".0", ".5", ".1", ".999999999", ".000000001", ".854775807", ".854775808", ".854775809", ".123456", ".0000"};
    static const char *G[] = {"", "+", "-"};
    const char *g = c.of (G), *i = c.of (I), *f = c.of (F); bool z = c.flip ();
    bytes s = bytes (g) + i + f;
    if (z) s += "Z";
    if (s.size () - z == 4 && !*g) return; // a year
    i128 v = 0; for (const char *p = i; *p; p++) v = v * 10 + (*p - '0');
    v *= 1000000000; int64_t w = 100000000; for (const char *p = f; *p; p++) if (*p != '.') { v += (*p - '0') * w; w /= 10; }
    if (*g == '-') v = -v;
    if (z) return; // epoch values have no zone designator; unspecified
    int64_t want = v > INT64_MAX || v < INT64_MIN ? NSTERROR : (int64_t)v, got = P (s);
    if (got != want) fail ("'%s' parses to %lld, expected %lld%s", s.c_str (), (long long)got, (long long)want, want == NSTERROR ? " (refused)" : "");
    c.step (); c.nontriv (); c.state (mc::Hash ().s (s));
  }, "sign, integer part at boundaries including the limits of time, fraction"});
  // unrecognised
  cfg.scenarios.push_back ({"unrecognised", [=] (Ctx &c) {
    static const char *base[] = {"2012-11-07T13:05:59.25", "2012-311T13:05:59", "2012,311,13,05,59.5", "2012", "1483228800.5", "-5", "2012/11/07"};
    bytes b = c.of (base);
    int pos = c.pick ((int)b.size () + 1), mode = c.pick (2);
    for (int ch = 1; ch < 256; ch++)
    {
      if (strchr ("0123456789-/,:.+TZz ", ch)) continue; // characters that can occur in a time
      bytes s = b;
      if (mode && pos < (int)s.size ()) s[pos] = (char)ch; else s.insert (pos, 1, (char)ch);
      int64_t got = P (s);
      if (got != NSTERROR) fail ("'%s' (character %d at %d) parses to %lld, expected refusal", s.c_str (), ch, pos, (long long)got);
      c.step ();
    }
    static const char *bad[] = {"", " ", "T", "Z", "-", "+", "2012Z1", "2012T", "2012 ", "2012T01", "2012:01:01", "2012.01.01T", "2012-01-01-01", "2012-01-01T00:00:00T00", "2012-01-01T00:00:00 00", "2012-01-01TT00", "2012-01-01T00:00:00ZZ",
                                "2012-01-01T00:00:00.0000000000000", "2012-1-1-1T00", "12-34-56-78", "2012-01-01T00:00:00+01", "2012-01-01T00:00:00-01", "2012-01-01T00:00:00-.5", "2012,001,00,00,00-5", "2012-001T00:00:00-5", "20/12", "2012:001"};
    if (pos == 0 && !mode)
      for (const char *s : bad)
      {
        int64_t got = P (s);
        if (got != NSTERROR) fail ("'%s' parses to %lld, expected refusal", s, (long long)got);
        c.step ();
      }
    c.nontriv (); c.state (mc::Hash ().s (b).i (pos).i (mode));
  }, "each byte value that no time contains, inserted at and substituted in every position of seven times; thirty malformed texts"});
  return mc::run (argc, argv, cfg);
}
