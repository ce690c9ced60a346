// P23: trace, gap and sync listings of the program and the library against independently derived segments.
#include "prog.hpp"
using namespace prog; using namespace world;
struct Seg { bytes sid; int ver; nstime_t st, en; double hz; int64_t n; };
struct Opt { bool split = false; double tt = -1, rt = -1; };
static nstime_t period (const Rc &r) { return r.hz > 0 ? (nstime_t) (1e9L / r.hz + 0.5L) : 0; }
// The continuous segments of records each of which continues at most one other; false when that is not so.
static bool segments (const std::vector<Rc> &v, const Opt &o, std::vector<Seg> &out)
{
  int n = v.size (); std::vector<int> nx (n, -1), pv (n, -1);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++)
  {
    if (a == b || v[a].sid != v[b].sid || (o.split && v[a].ver != v[b].ver) || v[a].hz == 0 || v[b].hz == 0) continue;
    nstime_t tol = o.tt >= 0 ? (nstime_t) (o.tt * 1e9) : period (v[a]) / 2, gap = v[b].st - v[a].en - period (v[a]);
    if (gap > tol || gap < -tol) continue;
    double diff = v[a].hz - v[b].hz; if (diff < 0) diff = -diff;
      if (o.rt > 0 ? diff > o.rt : (1.0 - v[a].hz / v[b].hz > 0.0001 || v[a].hz / v[b].hz - 1.0 > 0.0001)) continue;
    if (nx[a] >= 0 || pv[b] >= 0) return false;
    nx[a] = b; pv[b] = a;
  }
  std::map<std::pair<bytes, int>, std::vector<Seg>> ids;
  for (int a = 0; a < n; a++) if (pv[a] < 0)
  {
    Seg s{v[a].sid, v[a].ver, v[a].st, v[a].en, v[a].hz, 0}; int k = 0;
    for (int b = a; b >= 0; b = nx[b]) { if (++k > n) return false; s.n += v[b].n; s.en = v[b].en; }
    ids[{s.sid, o.split ? s.ver : 0}].push_back (s);
  }
  for (int a = 0, k = 0; a < n; a++) { k = a; for (int i = 0; i < n && pv[k] >= 0; i++) k = pv[k]; if (pv[k] >= 0) return false; }
  for (auto &i : ids)
  {
    std::sort (i.second.begin (), i.second.end (), [] (const Seg &a, const Seg &b) { return a.st < b.st || (a.st == b.st && a.en > b.en); });
    for (size_t k = 1; k < i.second.size (); k++) if (i.second[k].st == i.second[k - 1].st) return false; // order not judged
    out.insert (out.end (), i.second.begin (), i.second.end ());
  }
  return true;
}
struct Num { double v; double eps; bytes unit; };
struct Tok { bytes s; bool num = false; double v = 0, eps = 0; };
using Line = std::vector<Tok>;
static void words (Line &l, const bytes &s) { size_t p = 0; while (p < s.size ()) { size_t e = s.find (' ', p); if (e == bytes::npos) e = s.size (); if (e > p) l.push_back ({s.substr (p, e - p)}); p = e + 1; } }
static void number (Line &l, double v, double eps) { l.push_back ({"", true, v, eps}); }
static bytes stamp (nstime_t t, int form) // form as -tf, -1 default
{
  int d = micro_digits (t);
  return form == 0 ? ordtime (t, d) : form == 1 ? isotime (t, d, 'T', "") : form == 2 ? epochtime (t, d) : isotime (t, d);
}
// the duration of a gap as shown: days and hours with one decimal, seconds with four significant digits
static void duration (Line &l, double g)
{
  double a = g < 0 ? -g : g;
  if (a == 0) l.push_back ({"-0"});
  else if (a >= 86400) l.push_back ({"d", true, g / 86400, 0.0500001});
  else if (a >= 3600) l.push_back ({"h", true, g / 3600, 0.0500001});
  else number (l, g, a * 0.00050001);
}
static bool fits (const bytes &w, const Tok &t)
{
  if (!t.num) return w == t.s;
  char *e; double g = strtod (w.c_str (), &e); return e != w.c_str () && t.s == e && (g > t.v ? g - t.v : t.v - g) <= t.eps;
}
static bytes show (const Line &l) { bytes s; for (auto &t : l) s += (s.empty () ? "" : " ") + (t.num ? fmt ("%g+-%g", t.v, t.eps) + t.s : t.s); return s; }
static std::vector<bytes> split (const bytes &s, char by) { std::vector<bytes> v; size_t p = 0; for (;;) { size_t e = s.find (by, p); if (e == bytes::npos) { if (p < s.size () || by != '\n') v.push_back (s.substr (p)); return v; } v.push_back (s.substr (p, e - p)); p = e + 1; } }
static bytes clipped (const bytes &b) { return jesc (b.substr (0, 800)); }
static void compare (const bytes &out, const std::vector<Line> &want, const bytes &what)
{
  std::vector<bytes> got = split (out, '\n');
  if (got.size () != want.size () + 1) fail ("%s: %zu lines instead of %zu and a title: %s", what.c_str (), got.size (), want.size (), clipped (out).c_str ());
  for (size_t i = 0; i < want.size (); i++)
  {
    Line g; words (g, got[i + 1]); bool ok = g.size () == want[i].size ();
    for (size_t k = 0; ok && k < g.size (); k++) ok = fits (g[k].s, want[i][k]);
    if (!ok) fail ("%s: line '%s' instead of '%s'", what.c_str (), jesc (got[i + 1]).c_str (), show (want[i]).c_str ());
  }
}
static double gapsec (const Seg &a, const Seg &b, bool &contained)
{
  double g = (double)(b.st - a.en) / 1e9; contained = false;
  if (g < 0) { double cover = (double)(b.en - b.st) / 1e9 + (b.hz ? 1 / b.hz : 0); if (-g > cover) { g = -cover; contained = true; } }
  return g;
}
static bytes listed (const Seg &s, bool versions) { return versions ? s.sid + fmt ("#%d", s.ver) : s.sid; }
static std::vector<Line> trace_lines (const std::vector<Seg> &v, std::function<bytes (nstime_t)> T, bool details, bool gaps, bool versions)
{
  std::vector<Line> out; int ids = 0;
  for (size_t i = 0; i < v.size (); i++)
  {
    bool first = i == 0 || v[i].sid != v[i - 1].sid || (versions && v[i].ver != v[i - 1].ver); if (first) ids++;
    Line l; words (l, listed (v[i], versions)); words (l, T (v[i].st)); words (l, T (v[i].en));
    if (gaps) { bool in; if (first) l.push_back ({"=="}); else duration (l, gapsec (v[i - 1], v[i], in)); }
    if (details) { number (l, v[i].hz, v[i].hz * 0.0050001); words (l, fmt ("%lld", (long long)v[i].n)); }
    out.push_back (l);
  }
  if (details) { Line l; words (l, fmt ("Total: %d trace(s) with %zu segment(s)", ids, v.size ())); out.push_back (l); }
  return out;
}
static std::vector<Line> gap_lines (const std::vector<Seg> &v, std::function<bytes (nstime_t)> T, bool split, const double *lo, const double *hi)
{
  std::vector<Line> out; int n = 0;
  for (size_t i = 1; i < v.size (); i++)
  {
    const Seg &a = v[i - 1], &b = v[i]; if (a.sid != b.sid || (split && a.ver != b.ver) || a.hz == 0) continue;
    bool in; double g = gapsec (a, b, in); if ((lo && g < *lo) || (hi && g > *hi)) continue;
    Line l; words (l, a.sid); words (l, T (a.en)); words (l, T (b.st)); duration (l, g);
    double est = (g < 0 ? -g : g) * a.hz + (g > 0 ? -1 : 1);
    number (l, in ? est - 0.5 : est, (in ? 0.5 : 0) + (est < 0 ? -est : est) * 6e-8 + 1e-7); // a contained segment: with or without its last period
    out.push_back (l); n++;
  }
  Line l; words (l, fmt ("Total: %d gap(s)", n)); out.push_back (l); return out;
}
static void codes (const bytes &sid, bytes c[4])
{
  if (sid.compare (0, 5, "FDSN:")) return;
  std::vector<bytes> p = split (sid.substr (sid.rfind (':') + 1), '_'); if (p.size () != 6) return;
  for (int i = 0; i < 3; i++) c[i] = p[i];
  c[3] = p[3].size () == 1 && p[4].size () == 1 && p[5].size () == 1 ? p[3] + p[4] + p[5] : p[3] + "_" + p[4] + "_" + p[5]; if (c[3] == "__") c[3] = "__";
}
static void check_sync (const bytes &out, const std::vector<Seg> &v, const bytes &dcc, int digits, const bytes &what)
{
  std::vector<bytes> got = split (out, '\n'); if (got.size () != v.size () + 1) fail ("%s: %zu lines instead of %zu", what.c_str (), got.size (), v.size () + 1);
  time_t now = time (NULL); auto day = [&] (int d) { return ordtime ((nstime_t)(now + d * 86400) * NS1, 0).substr (0, 8); };
  bytes date = got[0].substr (std::min (got[0].size (), dcc.size () + 1)); if (got[0] != dcc + "|" + date || (date != day (0) && date != day (-1))) fail ("%s: first line %s", what.c_str (), jesc (got[0]).c_str ());
  for (size_t i = 0; i < v.size (); i++)
  {
    bytes c[4]; codes (v[i].sid, c); std::vector<bytes> f = split (got[i + 1], '|');
    std::vector<bytes> w = {c[0], c[1], c[2], c[3], ordtime (v[i].st, digits < 0 ? micro_digits (v[i].st) : digits), ordtime (v[i].en, digits < 0 ? micro_digits (v[i].en) : digits), "", "", fmt ("%lld", (long long)v[i].n), "", "", "", "", "", "", date};
    if (f.size () != w.size ()) fail ("%s: line %s has %zu fields", what.c_str (), jesc (got[i + 1]).c_str (), f.size ());
    for (size_t k = 0; k < w.size (); k++) if (k == 7) { double d = atof (f[k].c_str ()) - v[i].hz; if (d < 0) d = -d; if (d > v[i].hz * 1e-9) fail ("%s: rate in %s instead of %.10g", what.c_str (), jesc (got[i + 1]).c_str (), v[i].hz); } else if (f[k] != w[k]) fail ("%s: field %zu of %s instead of '%s'", what.c_str (), k, jesc (got[i + 1]).c_str (), w[k].c_str ());
  }
}
static bytes join (const std::vector<Rc> &v) { bytes b; for (auto &r : v) b += r.raw; return b; }
static bytes history (const std::vector<Rc> &v) { bytes s; for (auto &r : v) s += fmt (" [%s#%d %s %d@%g]", r.sid.c_str (), r.ver, isotime (r.st).c_str (), r.n, r.hz); return s; }
enum { T, TG, GAP, S, NMODE };
// run the program on the records and compare its listing
static bool judge (Ctx &c, const std::vector<Rc> &v, int mode, const Opt &o, int tf, const double *lo = NULL, const double *hi = NULL, const bytes &slo = "", const bytes &shi = "", const bytes &stt = "", const bytes &srt = "")
{
  std::vector<Seg> segs; if (!segments (v, o, segs)) return false;
  Spec s; static const char *m[] = {"-T", "-tg", "-G", "-S"}; s.args.push_back (m[mode]); auto opt = [&] (const char *k, const bytes &a) { s.args.push_back (k); s.args.push_back (a); };
  if (o.split) s.args.push_back ("-P"); if (o.tt >= 0) opt ("-tt", stt.empty () ? fmt ("%.9g", o.tt) : stt); if (o.rt >= 0) opt ("-rt", srt.empty () ? fmt ("%.9g", o.rt) : srt); if (tf >= 0) opt ("-tf", fmt ("%d", tf)); if (lo) opt ("-gmin", slo.empty () ? fmt ("%.10g", *lo) : slo); if (hi) opt ("-gmax", shi.empty () ? fmt ("%.10g", *hi) : shi);
  s.args.push_back ("-"); s.in = join (v);
  Out r = run (s); c.step (); bytes what = s.line () + " on" + history (v);
  if (r.status) fail ("%s exits with %d: %s", what.c_str (), r.status, r.err.c_str ());
  auto time = [tf] (nstime_t t) { return stamp (t, tf); };
  if (mode == T || mode == TG) compare (r.out, trace_lines (segs, time, true, mode == TG, o.split), what);
  if (mode == GAP) compare (r.out, gap_lines (segs, time, o.split, lo, hi), what);
  if (mode == S) check_sync (r.out, segs, "DCC", 6, what);
  if (segs.size () != v.size () || segs.size () > 1) c.nontriv (); c.state (Hash ().s (r.out));
  return true;
}

int main (int argc, char **argv)
{
  bool th = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P23";
  cfg.rule = "every sequence of distinct records of the alphabets in every arrival order x listing x limits, tolerances and formats";
  cfg.assumptions = {"records that could continue more than one other within the tolerance, and segments of one identifier starting at the same time, are not judged", "tolerances shorter than the records", "the estimate of samples for a segment within the span of the one before it is accepted with and without its last period", "gap durations and rates are compared at the precision displayed"};
  static const std::vector<Rc> alpha = {
    make (I32, "XX", "STA", "00", "HHZ", 1, 10, T0), make (I32, "XX", "STA", "00", "HHZ", 2, 10, T0 + 10 * NS1), make (ST2, "XX", "STA", "00", "HHZ", 3, 10, T0 + 20 * NS1),
    make (V2BE, "XX", "STA", "00", "HHZ", 4, 10, T0 + 35 * NS1), make (I32, "XX", "STA", "00", "HHZ", 5, 10, T0 + 5000 * NS1), make (I32, "XX", "STA", "00", "HHZ", 6, 10, T0 + 42 * NS1 + 1),
    make (I32, "XX", "STA", "00", "HHN", 7, 10, T0), make (I32, "XX", "STA", "00", "HHN", 8, 10, T0 + 10 * NS1, 1, 2), make (I32, "XX", "STA", "00", "HHN", 9, 5, T0 + 200000 * NS1),
    make (TXT, "XX", "LOG", "", "LOG", 10, 20, T0 + 5, 0), make (TXT, "XX", "LOG", "", "LOG", 11, 20, T0 + 100 * NS1, 0), make (I32, "XX", "STA", "00", "HHZ", 12, 3, T0 + 23 * NS1 + 500000000, 1)};
  int LEN = th ? 5 : 4;
  cfg.scenarios.push_back ({"orders", [=] (Ctx &c) {
    int n = 1 + c.pick (LEN), mode = c.pick (NMODE); Opt o; o.split = n == LEN ? mode == T : c.flip (); std::vector<Rc> v; std::vector<char> used (alpha.size ()); int h = mode;
    for (int i = 0; i < n; i++) { int k = c.pick ((int)alpha.size () - i); int x = 0; for (;; x++) if (!used[x] && k-- == 0) break; used[x] = 1; v.push_back (alpha[x]); h += x; }
    judge (c, v, mode, o, h % 4 - 1);
  }, fmt ("every sequence of up to %d of 12 records (adjacent, separated, overlapping, contained, other channels and versions, without rate) x trace list with and without gaps, gap list and SYNC list", LEN)});

  cfg.scenarios.push_back ({"time-tolerance", [=] (Ctx &c) {
    int ri = c.pick (3); double rate = ri == 0 ? 1 : ri == 1 ? 10 : -10; nstime_t per = ri == 0 ? NS1 : ri == 1 ? NS1 / 10 : 10 * NS1;
    static const char *tts[] = {NULL, "0", "0.25", "0.5", "2", "0.001", "1e-3", "0.04"}; int t = c.pick (8), nrec = 2 + c.pick (2); Opt o; if (t) o.tt = atof (tts[t]);
    nstime_t tol = t ? (nstime_t) (o.tt * 1e9) : per / 2; std::vector<Rc> v; nstime_t at = T0;
    for (int i = 0; i < nrec; i++) { v.push_back (make (I32, "XX", "STA", "00", "HHZ", i + 1, 30, at, rate)); nstime_t off[] = {0, tol, tol + 1, -tol, -tol - 1, tol - 1, 1 - tol}; if (i + 1 < nrec) at = v.back ().en + per + off[c.pick (!th && nrec == 3 ? 3 : 7)]; }
    std::vector<Rc> w; std::vector<int> idx; for (int i = 0; i < nrec; i++) idx.push_back (i); for (int i = nrec; i > 0; i--) { int k = c.pick (i); w.push_back (v[idx[k]]); idx.erase (idx.begin () + k); }
    judge (c, w, nrec == 2 && c.pick (2) ? GAP : T, o, -1, NULL, NULL, "", "", t ? tts[t] : "");
  }, "2 or 3 records at 3 rates at, within and one nanosecond beyond 8 time tolerances in both directions, in every order"});

  cfg.scenarios.push_back ({"rate-tolerance", [=] (Ctx &c) {
    static const double base[] = {10, 1, 100}; static const char *rts[] = {NULL, "0", "0.25", "0.125", "1", "0.0078125"}; int t = c.pick (6); double b = base[c.pick (3)], x = 0; Opt o; if (t) o.rt = atof (rts[t]); int k = c.pick (10);
    static const double rel[] = {0, 0.00009, -0.00009, 0.00011, -0.00011, 0.001}; static const double dif[] = {0.25, -0.25, 0.125, 0.0078125}; x = k < 6 ? b * (1 + rel[k]) : b + dif[k - 6];
    Rc p = make (I32, "XX", "STA", "00", "HHZ", 1, 50, T0, b), q = make (FLT, "XX", "STA", "00", "HHZ", 2, 50, p.en + period (p), x), r = make (I32, "XX", "STA", "00", "HHZ", 3, 50, q.en + period (q), x);
    std::vector<Rc> v{p, q}; if (c.flip ()) v.push_back (r); int perm = c.pick (v.size () == 2 ? 2 : 6); std::vector<int> ix{0, 1, 2}; ix.resize (v.size ()); while (perm--) std::next_permutation (ix.begin (), ix.end ()); std::vector<Rc> w; for (int i : ix) w.push_back (v[i]);
    std::vector<Seg> s; if (!segments (w, o, s)) return; 
    // the listed rate of joined records is one of theirs: compared through counts and times only when they differ
    Spec sp; sp.args = {"-T"}; if (t) { sp.args.push_back ("-rt"); sp.args.push_back (rts[t]); } sp.args.push_back ("-"); sp.in = join (w); Out out = run (sp); c.step (); auto want = trace_lines (s, [] (nstime_t t) { return stamp (t, -1); }, true, false, false);
    for (auto &l : want) for (auto &tk : l) if (tk.num) tk.eps += x > b ? x - b : b - x; compare (out.out, want, sp.line () + " on" + history (w)); if (s.size () < w.size ()) c.nontriv (); c.state (Hash ().s (out.out));
  }, "2 or 3 records of 3 rates and 10 relative or absolute differences x 6 rate tolerances in every order"});

  cfg.scenarios.push_back ({"mixed rates", [=] (Ctx &c) {
    int n = c.flip () ? 3 : 2; static const double R[] = {1, 20, 0.1, -2.5, 0}; std::vector<Rc> v;
    for (int i = 0; i < n; i++)
    {
      double hz = R[c.pick (n == 3 && !th ? 3 : 5)]; int cnt = n == 3 && !th ? c.one<int> ({12, 200}) : c.one<int> ({1, 12, 200}); nstime_t at = T0 + (i == 0 ? 0 : c.one<nstime_t> ({2 * NS1 + NS1 / 4, 9 * NS1, 60 * NS1 + 1, 500 * NS1}) * (i == 2 ? 3 : 1));
      v.push_back (make (I32, "XX", "STA", "00", "HHZ", i + 1, cnt, at, hz));
    }
    int mode = c.pick (3); if (n == 3 ? c.flip () : c.flip ()) std::reverse (v.begin (), v.end ()); Opt o; judge (c, v, mode, o, -1);
  }, "2 or 3 records of up to 5 sampling rates and 3 lengths at 4 offsets (apart, overlapping, contained), in both orders, under 3 listings"});

  static const std::vector<nstime_t> gaps = {1, 999, 1000, NS1 / 2, NS1 - 1, 3 * NS1 / 2, 2 * NS1, 9999 * NS1 / 1000, 10 * NS1, 3599 * NS1, 3600 * NS1 - 1, 3600 * NS1, 5400 * NS1, 86399 * NS1, 86400 * NS1, 36 * 3600 * NS1, 400 * 86400 * NS1, 0, -1, -NS1 / 2, -NS1, -3 * NS1, -9 * NS1, -10 * NS1, -11 * NS1, -3600 * NS1, -86400 * NS1};
  cfg.scenarios.push_back ({"durations", [=] (Ctx &c) {
    nstime_t g = gaps[c.pick ((int)gaps.size ())]; double rate = c.one<double> ({1, 20, -2}); int long_ = c.flip (); nstime_t at = c.one<nstime_t> ({T0, T0 + 1, -5 * NS1 - 1, 0, 951782399 * NS1 + 999999999, 7258118399 * NS1}); bool swap = c.flip ();
    int n1 = g < -60 * NS1 ? (rate == 20 ? 60000 : 200000) : 10; if (!th && n1 > 10 && (swap || rate != 1)) return;
    Rc a = make (n1 > 1000 ? ST2 : I32, "XX", "STA", "00", "HHZ", 1, n1, at, rate), b = make (I32, "XX", "STA", "00", "HHZ", 2, long_ ? 40 : 10, a.en + g, rate); if (b.st <= a.st) return;
    int tf = (int)c.pick (4) - 1; std::vector<Rc> v{a, b}; if (swap) std::swap (v[0], v[1]); Opt o; o.tt = 0;
    judge (c, v, c.pick (3) == 0 ? GAP : c.flip () ? TG : S, o, tf);
  }, fmt ("%zu gaps and overlaps from one nanosecond to 400 days x 3 rates x 6 times before and after the epoch x 4 time formats", gaps.size ())});

  cfg.scenarios.push_back ({"limits", [=] (Ctx &c) {
    static const char *lim[] = {NULL, "0", "0.5", "-0.5", "1.5", "-3", "-3.0", "-3.5", "-2.999999999", "2", "10", "10.000000001", "3600", "-10", "1e1", ".5"}; int a = c.pick (16), b = c.pick (16), k = c.pick (th ? 6 : 3); Opt o; o.tt = 0; double lo, hi; if (a) lo = atof (lim[a]); if (b) hi = atof (lim[b]);
    static const std::vector<std::vector<nstime_t>> sets = {{NS1 / 2, -NS1 / 2, 3 * NS1 / 2, -3 * NS1, 2 * NS1}, {10 * NS1, 10 * NS1 + 1, 3600 * NS1, -3 * NS1 - 1, 0}, {-NS1, -3 * NS1 + 1, NS1 + NS1 / 2 - 1, NS1 / 2 + 1, -10 * NS1}, {2 * NS1}, {-20 * NS1, 86400 * NS1}, {1}};
    std::vector<Rc> v; nstime_t at = T0; v.push_back (make (I32, "XX", "STA", "00", "HHZ", 1, 20, at)); for (auto g : sets[k]) v.push_back (make (I32, "XX", "STA", "00", "HHZ", (int)v.size () + 1, 20, v.back ().en + g));
    judge (c, v, GAP, o, -1, a ? &lo : NULL, b ? &hi : NULL, a ? lim[a] : "", b ? lim[b] : "");
  }, "16 minimum x 16 maximum gap limits x lists of up to 5 gaps and overlaps at, just below and just above them"});

  cfg.scenarios.push_back ({"identifiers", [=] (Ctx &c) {
    static const std::vector<bytes> ids = {"FDSN:XX_STA_00_H_H_Z", "FDSN:XX_STA__H_H_Z", "FDSN:NETWORK1_STATION9_LOCATN9_B_S_SS", "FDSN:NN_" + bytes (40, 'S') + "_00_H_H_Z", "FDSN:" + bytes (45, 'N') + "_S_L_H_H_Z", "FDSN:N_S_" + bytes (48, 'L') + "_B_S_X", "FDSN:N_S_L_" + bytes (20, 'B') + "_" + bytes (20, 'S') + "_X", "FDSN:_____", "XYZ:other", "FDSN:toofew_codes", bytes (63, 'q'), "FDSN:XX_STA_00_H__Z", "FDSN:XX_STA_00_BAND_SRC_SUB", "x"};
    int n = 1 + c.pick (3), mode = c.pick (4); std::vector<Rc> v; for (int i = 0; i < n; i++) { Rc r = make (I32, "XX", "STA", "00", "HHZ", i + 1, 10, T0 + i * 100 * NS1); Rec3 x; x.sid = r.sid = ids[c.pick ((int)ids.size ())]; x.settime (r.st); x.numsamples = 10; x.data = enc_plain (3, r.v, false); r.raw = x.build (); v.push_back (r); }
    Opt o; o.split = n < 3 && c.flip (); judge (c, v, mode, o, 0);
    if (n == 1 && getenv ("MC_MSI")) { Spec s; s.exe = getenv ("MC_MSI"); static const char *m[] = {"-T", "-tg", "-G", "-S"}; s.args = {m[mode], "-P", "-"}; s.in = join (v) + alpha[0].raw; Out r = run (s); c.step (); if (r.status) fail ("%s on%s exits with %d: %s", s.line ().c_str (), history (v).c_str (), r.status, r.err.substr (0, 1500).c_str ()); }
  }, "up to 3 records of 14 identifiers: plain, with long, empty, extended or missing codes, of other namespaces x 4 listings"});

  // ---- the library's listings with every option
  cfg.scenarios.push_back ({"library", [=] (Ctx &c) {
    int n = 1 + c.pick (3); std::vector<Rc> v; for (int i = 0; i < n; i++) v.push_back (alpha[(c.pick (6) * 5 + i * 3) % 12]); for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) if (v[i].raw == v[k].raw) return;
    int what = c.pick (3), form = c.pick (7), a = c.pick (2), b = c.pick (2), d = c.pick (2); bool split = c.flip (); if (what == 1 && (a || b) && d) return; Opt o; o.split = split; std::vector<Seg> segs; if (!segments (v, o, segs)) return;
    static const ms_timeformat_t F[] = {ISOMONTHDAY, ISOMONTHDAY_Z, ISOMONTHDAY_DOY, ISOMONTHDAY_DOY_Z, ISOMONTHDAY_SPACE_Z, SEEDORDINAL, UNIXEPOCH};
    auto time = [form] (nstime_t t) { int g = micro_digits (t); switch (form) { case 0: return isotime (t, g, 'T', ""); case 1: return isotime (t, g); case 2: case 3: return isotime (t, g, 'T', form == 3 ? "Z" : "") + fmt (" (%03d)", civil (t).yday); case 4: return isotime (t, g, ' '); case 5: return ordtime (t, g); } return epochtime (t, g); };
    double lo = 5, hi = 100; bytes in = join (v);
    Spec s; s.fn = [=] {
      MS3TraceList *l = NULL; if (mstl3_readbuffer (&l, in.data (), in.size (), split, 0, NULL, 0) < 0) return 7;
      if (what == 0) mstl3_printtracelist (l, F[form], a, b, split); if (what == 1) mstl3_printsynclist (l, a ? "XYZ" : NULL, (ms_subseconds_t) (b ? NANO : d ? NONE : MICRO)); if (what == 2) { double x = lo, y = hi; mstl3_printgaplist (l, F[form], a ? &x : NULL, b ? &y : NULL); }
      mstl3_free (&l, 0); return 0; };
    Out r = run (s); c.step (); bytes txt = fmt ("listing %d of the library with %d %d %d in format %d of", what, a, b, d, form) + history (v); if (r.status) fail ("%s: %d %s", txt.c_str (), r.status, r.err.c_str ());
    if (what == 0) compare (r.out, trace_lines (segs, time, a, b, split), txt); if (what == 1) check_sync (r.out, segs, a ? "XYZ" : "DCC", b ? 9 : d ? 0 : 6, txt); if (what == 2) compare (r.out, gap_lines (segs, time, split, a ? &lo : NULL, b ? &hi : NULL), txt);
    if (segs.size () > 1) c.nontriv (); c.state (Hash ().s (r.out));
  }, "up to 3 of 6 records per position x details x gaps x versions x 7 time formats, gap limits, SYNC names and precisions, through the library"});
  return mc::run (argc, argv, cfg);
}
