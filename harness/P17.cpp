#include "ref.hpp"
using namespace ref; using mc::Ctx; using mc::fail; using mc::fmt;
static LeapSecond *builtin;
static std::vector<int64_t> known () // UTC days that follow a leap second, 1972-07-01 .. 2017-01-01 (IERS)
{
  static const int ymd[][2] = {{1972, 7}, {1973, 1}, {1974, 1}, {1975, 1}, {1976, 1}, {1977, 1}, {1978, 1}, {1979, 1}, {1980, 1}, {1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
  std::vector<int64_t> v;
  for (auto &e : ymd) v.push_back (days_from_civil (e[0], e[1], 1) * 86400000000000LL);
  return v;
}
struct Lists { bytes name; std::vector<int64_t> L; bytes text; int count; };
static std::vector<Lists> lists ()
{
  auto K = known ();
  auto line = [] (int64_t L, int tai, const char *tail) { return fmt ("%lld\t%d%s", (long long)(L / 1000000000 + 2208988800LL), tai, tail); };
  std::vector<Lists> r;
  r.push_back ({"builtin", K, "", 0});
  bytes t = "#\tcomment\n#$\t 3676924800\n#@\t9876543210\n#\n";
  for (size_t i = 0; i < K.size (); i++) t += line (K[i], 11 + i, i % 2 ? "\t# 1 Jan\n" : "\n");
  r.push_back ({"full-file", K, t + "#h 1 2 3 4 5\n", (int)K.size ()});
  std::vector<int64_t> F = {K[26], days_from_civil (2030, 7, 1) * 86400000000000LL};
  r.push_back ({"future-file", F, "#@ 1\n\n" + line (F[0], 37, "") + "\n" + line (F[1], 38, " # no newline at end"), 2});
  r.push_back ({"comments-only", {}, "# nothing\n\n#@ 9876543210\n", 0});
  r.push_back ({"garbage-lines", {K[0]}, "hello\n12345\n" + line (K[0], 11, "\r\n") + "\n", 1});
  bytes w; // comments longer than any buffer, with what looks like an entry inside
  for (int n : {196, 197, 198, 199, 200, 397, 5000}) w += "#" + bytes (n - 1, 'x') + "2272060800 10\n";
  r.push_back ({"long-lines", {K[3], K[4], K[6]}, w + line (K[3], 14, "\t# ") + bytes (600, '5') + " 7 7\n" + line (K[4], 15, bytes (400, ' ').c_str ()) + "3 4\n" + line (K[6], 17, "\n") + "#" + bytes (300, '9') + " 1", 3});
  std::vector<int64_t> M; bytes mt; // twice as many as are known, from before 1970 to far ahead
  for (int y = 1962; y < 2062; y += 2) { M.push_back (days_from_civil (y, 1 + y % 4 * 3, 1) * 86400000000000LL); mt += line (M.back (), y - 1962, "\n"); }
  r.push_back ({"many", M, mt, (int)M.size ()});
  r.push_back ({"unsorted", {K[5], K[2]}, line (K[5], 16, "\n") + line (K[2], 13, "\n"), 2});
  return r;
}
static std::vector<Lists> LS;
static void use (int li, Ctx &c)
{
  if (leapsecondlist != builtin)
  {
    while (leapsecondlist) { LeapSecond *n = leapsecondlist->next; libmseed_memory.free (leapsecondlist); leapsecondlist = n; }
    leapsecondlist = builtin;
  }
  if (!li) return;
  Lists &l = LS[li];
  bytes p = fmt ("leap.%d.%d", getpid (), li);
  FILE *f = fopen (p.c_str (), "w"); fwrite (l.text.data (), 1, l.text.size (), f); fclose (f);
  int r, how = c.pick (3);
  if (how == 2) // another list was in effect before
  {
    bytes o = p + ".other"; f = fopen (o.c_str (), "w"); fputs ("3000000000 50\n3100000000 51\n", f); fclose (f); r = ms_readleapsecondfile (o.c_str ()); unlink (o.c_str ());
    if (r != 2) fail ("leap second file of two entries reads as %d", r);
  }
  if (how == 1) { setenv ("LSTEST", p.c_str (), 1); r = ms_readleapseconds ("LSTEST"); unsetenv ("LSTEST"); }
  else r = ms_readleapsecondfile (p.c_str ());
  unlink (p.c_str ());
  if (r != l.count) fail ("leap second file '%s' reads as %d entries, %d expected", l.name.c_str (), r, l.count);
  std::vector<int64_t> got; for (LeapSecond *q = leapsecondlist; q; q = q->next) got.push_back (q->leapsecond);
  if (got != l.L) fail ("leap second file '%s' gives a wrong list (%zu entries)", l.name.c_str (), got.size ());
}
// expected time within tolerance; leap seconds counted
static void check_time (const char *what, int64_t got, int64_t t, int64_t n, double rate, const std::vector<int64_t> &L)
{
  __float128 span = 0;
  if (n > 0 && rate > 0) span = (__float128)n / (__float128)rate * 1000000000;
  else if (n > 0 && rate < 0) span = (__float128)n * -(__float128)rate * 1000000000;
  __float128 end = (__float128)t + span;
  double tol = 0.5 + (double)span * 5e-16;
  // ends so close to the boundary of a leap second that rounding decides are not judged
  bool in = false;
  for (int64_t l : L)
  {
    __float128 lim = (__float128)l + 1000000000;
    if (l > t && end > lim - tol && end < lim + tol && end != lim && (__float128)(int64_t)span != span) return;
    if (l > t && end >= lim) in = true;
  }
  if (in) end -= 1000000000;
  __float128 diff = (__float128)got - end; if (diff < 0) diff = -diff;
  if (diff > tol) fail ("%s: time of sample %lld from %lld at rate %.17g is %lld, expected %lld%s", what, (long long)n, (long long)t, rate, (long long)got, (long long)end, in ? " (leap second inside)" : "");
}
static void check_all (Ctx &c, int64_t t, int64_t n, double rate, const std::vector<int64_t> &L)
{
  check_time ("ms_sampletime", ms_sampletime (t, n, rate), t, n, rate, L);
  MS3Record m; memset (&m, 0, sizeof m); m.reclen = -1; strcpy (m.sid, "FDSN:XX_A__L_H_Z"); m.starttime = t; m.samprate = rate; m.samplecnt = n + 1; m.formatversion = 3;
  check_time ("msr3_endtime", msr3_endtime (&m), t, n, rate, L);
  m.samplecnt = 0;
  if (msr3_endtime (&m) != t) fail ("end time of a record without samples is %lld, start %lld", (long long)msr3_endtime (&m), (long long)t);
  m.samplecnt = n + 1;
  double hz = rate < 0 ? -1.0 / rate : rate;
  if (msr3_sampratehz (&m) != hz) fail ("rate of %.17g is %.17g Hz, expected %.17g", rate, msr3_sampratehz (&m), hz);
  if (rate != 0)
  {
    double per = rate > 0 ? 1e9 / rate : -1e9 * rate;
    if (per < 9e18 && fabs ((double)msr3_nsperiod (&m) - per) > 0.5 + per * 4e-16) fail ("period of rate %.17g is %lld ns, expected %.17g", rate, (long long)msr3_nsperiod (&m), per);
  }
  else if (msr3_nsperiod (&m)) fail ("period of rate 0 is %lld", (long long)msr3_nsperiod (&m));
  c.step (4);
  // latency, from the last sample to the current second (or to a finer clock reading within it)
  double t0 = (double)time (NULL), lat = msr3_host_latency (&m), t1 = (double)time (NULL), e = (double)msr3_endtime (&m) / 1e9, tol = 1e-3 + fabs (e) * 1e-15;
  if (lat < t0 - e - tol || lat > t1 + 1 - e + tol) fail ("latency of a record that ends at %.9f is %.9f seconds at %.0f", e, lat, t0);
  // segment times of a trace list
  MS3TraceList *l = mstl3_init (NULL);
  MS3TraceSeg *s = mstl3_addmsr (l, &m, 0, 0, 0, NULL);
  if (!s) fail ("record not added");
  if (s->starttime != t || s->endtime != msr3_endtime (&m) || l->traces.next[0]->latest != s->endtime || l->traces.next[0]->earliest != t) fail ("segment %lld to %lld, record %lld to %lld", (long long)s->starttime, (long long)s->endtime, (long long)t, (long long)msr3_endtime (&m));
  mstl3_free (&l, 0);
  c.step ();
}
int main (int argc, char **argv)
{
  setup (); builtin = leapsecondlist; LS = lists ();
  mc::Config cfg; cfg.property = "P17";
  cfg.rule = "times equal start + n/rate (or n*period) computed in quadruple precision, within half a nanosecond plus double rounding of the span, less one second exactly when some listed leap second starts after the start and ends no later than the end";
  cfg.assumptions = {"the 1972-01-01 entry that opens every published list (not an inserted second) is not exercised", "spans whose exact end lies within rounding of the end of a leap second are not judged"};
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  static const double rates[] = {1, 2, 3, 7, 10, 20, 40, 50, 100, 200, 250, 500, 1000, 44100, 1e6, 1e9, 0.5, 0.1, 1.0 / 3, 0.0001, 1.0 / 86400, 19.99999, 99.99998, 0, -1, -2, -3, -10, -60, -0.01, -0.025, -1.0 / 3, -86400, -0.000001, -2.0 / 3, -0.1428571428571429, 6};
  static const int64_t cnts[] = {0, 1, 2, 3, 9, 10, 19, 20, 99, 100, 101, 999, 1000, 3599, 3600, 4095, 65535, 86399, 86400, 1000000, 2147483647, 4294967296LL};
  cfg.scenarios.push_back ({"sample-times", [=] (Ctx &c) {
    double r = c.of (rates); int64_t n = c.of (cnts);
    static const int64_t starts[] = {0, 1, -1, -1000000000, 1600000000000000000LL, 1600000000123456789LL, -3000000000000000001LL, 999999999, 500000000};
    double span = r > 0 ? n / r : -r * n;
    if (span > 4e9) return;
    for (int64_t t : starts) check_all (c, t, n, r, LS[0].L);
    c.nontriv (); c.state (mc::Hash ().d (r).i (n));
  }, "37 rates and periods x 22 sample offsets x 9 start times, sample time, record end, segment end, Hz and period"});
  cfg.scenarios.push_back ({"leap-seconds", [=] (Ctx &c) {
    MemCheck mk; int li = c.pick ((int)LS.size ());
    use (li, c);
    std::vector<int64_t> near = LS[li].L;
    auto K = known (); near.insert (near.end (), K.begin (), K.end ()); std::sort (near.begin (), near.end ()); near.erase (std::unique (near.begin (), near.end ()), near.end ());
    int64_t L = near[c.pick ((int)near.size ())];
    static const double rr[] = {1, 20, 100, 0.1, -1, -10, -0.05, -60, 0};
    static const int64_t off[] = {-86400000000000LL, -60000000000LL, -10000000000LL, -2000000000LL, -1500000000LL, -1000000001LL, -1000000000LL, -999999999LL, -50000000, -1, 0, 1, 500000000, 999999999, 1000000000LL, 1000000001LL};
    for (double r : rr) for (int64_t o : off)
      for (int64_t n : {0LL, 1LL, 2LL, 9LL, 10LL, 11LL, 19LL, 20LL, 21LL, 39LL, 40LL, 41LL, 60LL, 61LL, 62LL, 100LL, 200LL, 86400LL, 86401LL, 86402LL})
        check_all (c, L + o, n, r, LS[li].L);
    if (th) for (int64_t e = -30; e <= 30; e++) for (int64_t n = 0; n <= 130; n++) check_all (c, L - 1000000000LL + e * 50000000, n, 20, LS[li].L);
    c.nontriv (); c.state (mc::Hash ().i (li).i (L));
    use (0, c);
    mk.done ("leap second lists");
  }, "8 leap second lists (built in, full file, future file, empty, unparsable lines, long lines, 50 entries from 1962 on, unsorted) read by name, by environment or after another file x each leap second x 9 rates x 16 start offsets x 20 lengths around it"});
  cfg.scenarios.push_back ({"parsed-records", [=] (Ctx &c) {
    int li = c.pick (3) ; use (li, c);
    int64_t L = known ()[26]; int v = c.flip ();
    int64_t start = L + (int64_t)(c.pick (5) - 3) * 1000000000LL; int n = 1 + c.pick (6); double r = c.flip () ? 1 : 2;
    bytes rec;
    if (v) { Rec3 q; q.settime (start); q.samprate = r; q.numsamples = n; q.encoding = 3; q.data = enc_plain (3, std::vector<double> (n, 5), false); rec = q.build (); }
    else { Rec2 q; q.settime (start); q.factor = (int)r; q.numsamples = n; q.reclen = 128; q.blks.push_back (q.b1000 (3, 1, 7)); q.data = enc_plain (3, std::vector<double> (n, 5), true); rec = q.build (); }
    Buf b (rec); MS3Record *m = nullptr;
    if (msr3_parse (b.p, b.n, &m, MSF_UNPACKDATA, 0)) fail ("parse");
    if (m->starttime != start) fail ("start time %lld, expected %lld", (long long)m->starttime, (long long)start);
    check_time ("msr3_endtime of a parsed record", msr3_endtime (m), start, n - 1, r, LS[li].L);
    c.step (2); c.nontriv (); c.state (mc::Hash ().i (start).i (n).d (r).i (v).i (li));
    msr3_free (&m); use (0, c);
  }, "records of both versions across the 2017 leap second, three lists"});
  return mc::run (argc, argv, cfg);
}
