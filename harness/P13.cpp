#include "ref.hpp"
using namespace ref; using mc::Ctx; using mc::fail; using mc::fmt;
static void check_split (Ctx &c, int64_t t)
{
  uint16_t y = 9, d = 9; uint8_t h = 99, m = 99, s = 99; uint32_t ns = 7;
  if (ms_nstime2time (t, &y, &d, &h, &m, &s, &ns)) fail ("splitting %lld is refused", (long long)t);
  Civil r = civil (t);
  if (y != r.year || d != r.yday || h != r.hour || m != r.min || s != r.sec || ns != r.nsec)
    fail ("splitting %lld gives %u,%03u,%02u:%02u:%02u.%09u, calendar says %lld,%03d,%02d:%02d:%02d.%09u", (long long)t, y, d, h, m, s, ns, (long long)r.year, r.yday, r.hour, r.min, r.sec, r.nsec);
  // every field is optional
  uint16_t y1 = 0, d1 = 0; uint8_t h1 = 0, m1 = 0, s1 = 0; uint32_t n1 = 0;
  if (ms_nstime2time (t, &y1, 0, 0, 0, 0, 0) || ms_nstime2time (t, 0, &d1, 0, 0, 0, 0) || ms_nstime2time (t, 0, 0, &h1, 0, 0, 0) || ms_nstime2time (t, 0, 0, 0, &m1, 0, 0) ||
      ms_nstime2time (t, 0, 0, 0, 0, &s1, 0) || ms_nstime2time (t, 0, 0, 0, 0, 0, &n1)) fail ("splitting %lld into single fields is refused", (long long)t);
  if (y1 != y || d1 != d || h1 != h || m1 != m || s1 != s || n1 != ns) fail ("splitting %lld into single fields differs from splitting it into all", (long long)t);
  c.step ();
  if (t == NSTERROR || t == NSTUNSET || r.year < 1678) return;
  int64_t b = ms_time2nstime (y, d, h, m, s, ns);
  if (b != t) fail ("composing %u,%03u,%02u:%02u:%02u.%09u gives %lld, not %lld", y, d, h, m, s, ns, (long long)b, (long long)t);
}
int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P13";
  cfg.rule = "the library's result equals a day-count reference calendar; composing is the inverse of splitting; a combination of fields is refused exactly when a field is outside its range or the instant does not fit";
  cfg.assumptions = {"years 1678 to 2262 as the library's range of years; the two reserved time values (NSTERROR, NSTUNSET) excluded from composing"};
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  int64_t d0 = days_from_civil (1677, 9, 22), d1 = days_from_civil (2262, 4, 10);
  int years = 2262 - 1677 + 1;
  std::vector<int> sods = th ? std::vector<int>{0, 1, 59, 60, 61, 3599, 3600, 3661, 43199, 43200, 50400, 82800, 86340, 86398, 86399} : std::vector<int>{0, 1, 3599, 43199, 45296, 86399};
  std::vector<int64_t> nss = th ? std::vector<int64_t>{0, 1, 999, 1000, 500000000, 999999000, 999999999} : std::vector<int64_t>{0, 1, 999999999};
  cfg.scenarios.push_back ({"every-day", nullptr, "every day from 1677-09-22 to 2262-04-10, seconds of day and nanoseconds at their boundaries"});
  cfg.scenarios.back ().fn = [=] (Ctx &c) {
    int y = c.pick (years);
    for (int64_t d = std::max (d0, days_from_civil (1677 + y, 1, 1)); d < std::min (d1, days_from_civil (1678 + y, 1, 1)); d++)
    {
      for (int sod : sods) for (int64_t ns : nss) check_split (c, (d * 86400 + sod) * 1000000000LL + ns);
      c.state (mc::Hash ().i (d));
    }
    c.nontriv ();
  };
  cfg.scenarios.push_back ({"every-second", [=] (Ctx &c) {
    static const int64_t days[] = {days_from_civil (1969, 12, 31), days_from_civil (1970, 1, 1), days_from_civil (2000, 2, 29), days_from_civil (1900, 2, 28), days_from_civil (2100, 12, 31), days_from_civil (1678, 1, 1)};
    int64_t d = c.of (days);
    int h = c.pick (24);
    for (int s = 0; s < 3600; s++) for (int64_t ns : {0LL, 1LL, 123456789LL, 999999999LL}) check_split (c, (d * 86400 + h * 3600 + s) * 1000000000LL + ns);
    c.state (mc::Hash ().i (d).i (h)); c.nontriv ();
  }, "every second of six days around the epoch, leap days and year ends"});
  cfg.scenarios.push_back ({"near-limits", [=] (Ctx &c) {
    static const int64_t base[] = {INT64_MIN + 1, INT64_MAX, 0, -1000000000LL, 1000000000LL, NSTERROR, NSTUNSET, INT64_MIN + 775807LL};
    int64_t b = c.of (base);
    int64_t off = (int64_t)c.pick (401) - 200;
    if (b == INT64_MAX && off > 0) return;
    if (b == INT64_MIN + 1 && off < -1) return;
    check_split (c, b + off);
    c.state (mc::Hash ().i (b + off)); c.nontriv ();
  }, "200 nanoseconds either side of the limits of representable time, the epoch and reserved values"});
  cfg.scenarios.push_back ({"compose-fields", [=] (Ctx &c) {
    static const int ys[] = {INT_MIN, -1, 0, 1, 999, 1600, 1676, 1677, 1678, 1679, 1700, 1900, 1968, 1969, 1970, 1972, 2000, 2001, 2100, 2261, 2262, 2263, 9999, INT_MAX};
    static const int ds[] = {INT_MIN, -1, 0, 1, 2, 59, 60, 61, 100, 101, 102, 364, 365, 366, 367, 400, INT_MAX}, hs[] = {-1, 0, 12, 23, 24, 99}, ms[] = {-1, 0, 47, 48, 59, 60}, ss[] = {-1, 0, 16, 17, 59, 60, 61};
    static const uint32_t ns[] = {0, 1, 854775806, 854775807, 854775808, 999999999, 1000000000, UINT32_MAX};
    int y = c.of (ys), d = c.of (ds);
    for (int h : hs) for (int m : ms) for (int s : ss) for (uint32_t n : ns)
    {
      bool ok = y >= 1678 && y <= 2262 && d >= 1 && d <= ydays (y) && h >= 0 && h <= 23 && m >= 0 && m <= 59 && s >= 0 && s <= 60 && n <= 999999999;
      i128 e = ok ? epoch_ns (y, d, h, m, s, n) : 0;
      if (e > INT64_MAX) ok = false;
      if (ok && (e == NSTERROR || e == NSTUNSET)) continue;
      int64_t got = ms_time2nstime (y, d, h, m, s, n), want = ok ? (int64_t)e : NSTERROR;
      if (got != want) fail ("composing %d,%d,%d:%d:%d.%u gives %lld, expected %lld%s", y, d, h, m, s, n, (long long)got, (long long)want, ok ? "" : " (refused)");
      c.step (); if (!ok) c.nontriv ();
    }
    c.state (mc::Hash ().i (y).i (d));
  }, "every combination of boundary values of the six fields, inside and outside their ranges"});
  cfg.scenarios.push_back ({"month-day", [=] (Ctx &c) {
    int y = 1670 + c.pick (600);
    for (int m = -1; m <= 14; m++) for (int d = -1; d <= 33; d++)
    {
      bool ok = y >= 1678 && y <= 2262 && m >= 1 && m <= 12 && d >= 1 && d <= mdays (y, m);
      int yd = -77, r = ms_md2doy (y, m, d, &yd);
      int want = ok ? (int)(days_from_civil (y, m, d) - days_from_civil (y, 1, 1)) + 1 : 0;
      if (ok ? (r != 0 || yd != want) : r == 0) fail ("month-day %d-%d-%d to day of year gives %d, %d; expected %s %d", y, m, d, r, yd, ok ? "day" : "refusal", want);
      c.step ();
    }
    for (int yd = -2; yd <= 369; yd++)
    {
      bool ok = y >= 1678 && y <= 2262 && yd >= 1 && yd <= ydays (y);
      int m = -5, d = -5, r = ms_doy2md (y, yd, &m, &d);
      if (!ok) { if (r == 0) fail ("day of year %d,%d accepted as %d-%d", y, yd, m, d); continue; }
      int em = 1, rest = yd; while (rest > mdays (y, em)) rest -= mdays (y, em++);
      if (r || m != em || d != rest) fail ("day of year %d,%d gives %d: %d-%d, expected %d-%d", y, yd, r, m, d, em, rest);
      c.step ();
    }
    c.state (mc::Hash ().i (y)); c.nontriv ();
  }, "all years 1670-2269, every month -1..14, day -1..33 and day of year -2..369"});
  return mc::run (argc, argv, cfg);
}
