// P12: selections: glob patterns, time windows, versions, selection files, reading with selections.
#include "globref.hpp"
using namespace ref;
using mc::Ctx; using mc::fail;
static bool thorough;

static void check_glob (Ctx &c, const bytes &p, const std::vector<bytes> &strs)
{
  std::vector<Tok> t;
  if (tokens (p, t)) return;
  MS3Selections *sel = NULL;
  if (ms3_addselect (&sel, p.c_str (), NSTUNSET, NSTUNSET, 0)) fail ("pattern '%s' refused", p.c_str ());
  for (auto &s : strs)
  {
    const MS3SelectTime *st = NULL;
    bool got = ms3_matchselect (sel, s.c_str (), 100, 200, 1, &st) != NULL, want = tokmatch (t, s);
    c.step ();
    if (got != want) fail ("pattern '%s' %s '%s'", p.c_str (), got ? "matches" : "does not match", s.c_str ());
    if (got && st != sel->timewindows) fail ("pattern '%s': the window returned is not the entry's", p.c_str ());
    if (want) c.nontriv ();
  }
  ms3_freeselections (sel);
}
static std::vector<bytes> all_strings (const bytes &alpha, size_t maxlen)
{
  std::vector<bytes> v{""};
  for (size_t i = 0; i < v.size (); i++) if (v[i].size () < maxlen) for (char ch : alpha) v.push_back (v[i] + ch);
  return v;
}
static bytes pick_string (Ctx &c, const bytes &alpha, int maxlen)
{
  bytes s; int n = c.pick (maxlen + 1);
  for (int i = 0; i < n; i++) s += alpha[c.pick ((int)alpha.size ())];
  return s;
}

// ---- entries, windows, versions
struct W { nstime_t s, e; };
struct E { bytes pat; int pv; std::vector<W> w; };
static bool overlaps (const W &w, nstime_t s, nstime_t e) { return !(w.s != NSTUNSET && e < w.s) && !(w.e != NSTUNSET && s > w.e); }
static bool entry_match (const E &e, const bytes &sid, nstime_t s, nstime_t t, int pv)
{
  std::vector<Tok> k; tokens (e.pat, k);
  if (!tokmatch (k, sid)) return false;
  if (e.pv > 0 && e.pv != pv) return false;
  if (e.w.empty ()) return true;
  for (auto &w : e.w) if (overlaps (w, s, t)) return true;
  return false;
}
static MS3Record *mk (const bytes &sid, nstime_t t, int64_t n, double rate, int pv, const std::vector<int32_t> *data = nullptr)
{
  MS3Record *m = msr3_init (NULL);
  strcpy (m->sid, sid.c_str ()); m->starttime = t; m->samprate = rate; m->samplecnt = n; m->pubversion = pv; m->formatversion = 3; m->reclen = -1;
  return m;
}
static const int64_t G = 1000000000LL;
// value of the grid position; times are away from any special instant
static nstime_t at (int p) { return 1600000000LL * G + p * G; }

static void windows (Ctx &c)
{
  MemCheck mcheck;
  static const char *pats[] = {"*", "FDSN:A*", "FDSN:B?", "FDSN:[^A]1"};
  static const char *sids[] = {"FDSN:A1", "FDSN:B1", "FDSN:B22"};
  int ne = 1 + c.pick (2);
  std::vector<E> ents; // as documented: same pattern and version joins the existing entry
  MS3Selections *sel = NULL;
  for (int i = 0; i < ne; i++)
  {
    E e; e.pat = pats[c.pick (ne == 1 ? 2 : 4)]; e.pv = c.pick (3);
    int nw = ne == 1 ? 1 + c.pick (2) : 1;
    for (int j = 0; j < nw; j++)
    {
      int a = c.pick (ne == 1 ? 6 : 3), b;
      W w; w.s = a == 0 ? NSTUNSET : at (a * (ne == 1 ? 1 : 2));
      if (ne == 1) { b = c.pick (a ? 7 - a : 6); w.e = b == 0 ? NSTUNSET : at (a ? a + b - 1 : b); }
      else { b = c.pick (2); w.e = b == 0 ? NSTUNSET : at (4); }
      e.w.push_back (w);
      if (ms3_addselect (&sel, e.pat.c_str (), w.s, w.e, e.pv)) fail ("selection refused");
    }
    bool joined = false;
    for (auto &x : ents) if (x.pat == e.pat && x.pv == e.pv) { x.w.insert (x.w.end (), e.w.begin (), e.w.end ()); joined = true; }
    if (!joined) ents.push_back (e);
  }
  bool nowin = false;
  if (ne == 1 && ents[0].w.size () == 1 && c.pick (2)) // an entry without windows, as applications may build
  {
    libmseed_memory.free (sel->timewindows); sel->timewindows = NULL; ents[0].w.clear (); nowin = true;
  }
  if (ents.size () == 2)
    if (int k = c.pick (3))
    {
      MS3Selections *s = sel; if (ents[k - 1].pat != s->sidpattern || ents[k - 1].pv != s->pubversion) s = s->next;
      while (MS3SelectTime *t = s->timewindows) { s->timewindows = t->next; libmseed_memory.free (t); }
      ents[k - 1].w.clear (); nowin = true;
    }
 
  for (const char *sid : sids)
    for (int pv = 0; pv <= 2; pv++)
      for (int a = 0; a <= 6; a++)
        for (int b = a; b <= 6; b++)
        {
          bool want = false;
          for (auto &e : ents) want |= entry_match (e, sid, at (a), at (b), pv);
          const MS3SelectTime *st = (const MS3SelectTime *)1;
          const MS3Selections *r = ms3_matchselect (sel, sid, at (a), at (b), pv, &st);
          c.step ();
          bytes what = mc::fmt ("%s version %d span %d..%d against", sid, pv, a, b);
          for (auto &e : ents) { what += mc::fmt (" {%s v%d", e.pat.c_str (), e.pv); for (auto &w : e.w) what += mc::fmt (" %lld..%lld", w.s == NSTUNSET ? -1 : (long long)((w.s - at (0)) / G), w.e == NSTUNSET ? -1 : (long long)((w.e - at (0)) / G)); what += "}"; }
          if (!!r != want) fail ("%s: %s", what.c_str (), r ? "selected" : "not selected");
          if (!r && st) fail ("%s: a window is returned without a match", what.c_str ());
          if (r)
          {
            c.nontriv ();
            E e; e.pat = r->sidpattern; e.pv = r->pubversion; if (st) e.w.push_back ({st->starttime, st->endtime});
            if (!st && r->timewindows) fail ("%s: no window returned", what.c_str ());
            if (st) { bool in = false; for (auto *q = r->timewindows; q; q = q->next) in |= q == st; if (!in) fail ("%s: the returned window is not one of the returned entry's", what.c_str ()); }
            if (!entry_match (e, sid, at (a), at (b), pv)) fail ("%s: the returned entry or window does not match", what.c_str ());
          }
          // the record form uses the record's own span
          MS3Record *m = mk (sid, at (a), b - a + 1, 1.0, pv);
          const MS3Selections *r2 = msr3_matchselect (sel, m, NULL);
          if (r2 != r) fail ("%s: the record is %s", what.c_str (), r2 ? "selected" : "not selected");
          msr3_free (&m);
        }
  ms3_freeselections (sel);
  mcheck.done ("selections");
}

// ---- codes to patterns
static int xchan (const bytes &in, bytes &out)
{
  auto ok = [] (char ch) { return ch == '?' || ch == '*' || isalnum ((unsigned char)ch); };
  if (in.size () == 3 && ok (in[0]) && ok (in[1]) && ok (in[2])) { out = bytes () + in[0] + "_" + in[1] + "_" + in[2]; return 1; }
  out = in; return 0;
}
static bool comp_pattern (const char *n, const char *s, const char *l, const char *ch, bytes &out)
{
  bytes N = n ? n : "*", S = s ? s : "*", L = l ? (!strcmp (l, "--") ? "" : l) : "*", C;
  if (!ch) C = "*"; else xchan (ch, C);
  for (const char *q : {n, s, l, ch}) if (q && strlen (q) >= 20) return false;
  out = "FDSN:" + N + "_" + S + "_" + L + "_" + C;
  return true;
}
static void comp (Ctx &c)
{
  MemCheck mcheck;
  static const char *nets[] = {NULL, "XX", "X?", "*", "ABCDEFGHIJKLMNOPQRS", "ABCDEFGHIJKLMNOPQRST"};
  static const char *locs[] = {NULL, "--", "", "00", "0?", "ABCDEFGHIJKLMNOPQRST"};
  static const char *chans[] = {NULL, "LHZ", "LH?", "L*Z", "?HZ", "L_H_Z", "B_H_*", "LH", "L_HZ", "H_XY_N", "*", "???", "*_*_Z", "LHZ1", "ABCDEFGHIJKLMNOPQRS", "ABCDEFGHIJKLMNOPQRST", "L[HL]Z"};
  const char *n = nets[c.pick (6)], *s = nets[c.pick (6)], *l = locs[c.pick (6)], *ch = chans[c.pick (17)];
  bytes want; bool ok = comp_pattern (n, s, l, ch, want);
  MS3Selections *sel = NULL;
  int rv = ms3_addselect_comp (&sel, (char *)n, (char *)s, (char *)l, (char *)ch, at (1), at (2), 3);
  bytes what = mc::fmt ("codes %s %s %s %s", n ? n : "NULL", s ? s : "NULL", l ? l : "NULL", ch ? ch : "NULL");
  c.step ();
  if (!ok && rv == 0) fail ("%s: codes that cannot be stored accepted as '%s'", what.c_str (), sel ? sel->sidpattern : "");
  if (ok && rv) fail ("%s: refused", what.c_str ());
  if (ok)
  {
    if (!sel || want != sel->sidpattern || sel->pubversion != 3 || !sel->timewindows || sel->timewindows->starttime != at (1) || sel->timewindows->endtime != at (2) || sel->timewindows->next || sel->next) fail ("%s: pattern is '%s', expected '%s'", what.c_str (), sel ? sel->sidpattern : "", want.c_str ());
    c.nontriv ();
  }
  else if (sel) fail ("%s: refused but added", what.c_str ());
  ms3_freeselections (sel); mcheck.done (what.c_str ());
}

// ---- selection files
struct Line { bytes text; int kind; E e; }; // kind 0 nothing, 1 entry, 2 error, 3 skipped with a message
static bytes tstr (nstime_t t) { char b[64]; Civil k = civil (t); snprintf (b, sizeof b, "%04lld-%02d-%02dT%02d:%02d:%02d", (long long)k.year, k.month, k.mday, k.hour, k.min, k.sec); return b; }
static std::vector<Line> file_lines ()
{
  std::vector<Line> v;
  bytes T1 = tstr (at (1)), T2 = tstr (at (5)), P; nstime_t U = NSTUNSET;
  comp_pattern ("XX", "ST?", "--", "LH?", P);
  v.push_back ({"FDSN:XX_*", 1, {"FDSN:XX_*", 0, {{U, U}}}});
  v.push_back ({"FDSN:XX_* " + T1, 1, {"FDSN:XX_*", 0, {{at (1), U}}}});
  v.push_back ({"FDSN:YY_*\t" + T1 + "  " + T2, 1, {"FDSN:YY_*", 0, {{at (1), at (5)}}}});
  v.push_back ({"FDSN:XX_* " + T1 + " " + T2 + " 2", 1, {"FDSN:XX_*", 2, {{at (1), at (5)}}}});
  v.push_back ({"FDSN:XX_* 2020-02-03T04:05:06 2020,034,04,05,07.5 255", 1, {"FDSN:XX_*", 255, {{1580702706LL * G, 1580702707LL * G + G / 2}}}});
  v.push_back ({"XX ST? -- LH?", 1, {P, 0, {{U, U}}}});
  v.push_back ({"XX ST? -- LH? 3", 1, {P, 3, {{U, U}}}});
  v.push_back ({"XX ST? -- LH? D " + T1, 1, {P, 0, {{at (1), U}}}});
  v.push_back ({"XX ST? -- LH? * " + T1 + " " + T2, 1, {P, 0, {{at (1), at (5)}}}});
  v.push_back ({"* * * B_H_Z 1 " + T1 + " " + T2, 1, {"FDSN:*_*_*_B_H_Z", 1, {{at (1), at (5)}}}});
  v.push_back ({"", 0, {}});
  v.push_back ({"# FDSN:ZZ_* " + T1, 0, {}});
  v.push_back ({"   \t ", 0, {}});
  v.push_back ({"FDSN:XX_* 2020-13-01", 2, {}});
  v.push_back ({"FDSN:XX_* 2020-02-30T00:00:00 " + T2, 2, {}});
  v.push_back ({"FDSN:XX_* " + T1 + " 2020-01-01T25:00:00", 2, {}});
  v.push_back ({"FDSN:XX_* " + T1 + " " + T2 + " 256", 2, {}});
  v.push_back ({"FDSN:XX_* " + T1 + " " + T2 + " 1x", 2, {}});
  v.push_back ({"XX ST? -- LH? 300", 2, {}});
  v.push_back ({"XX ST? -- LH? 1 2020-02-31", 2, {}});
  v.push_back ({"XX ST? -- LH? 1 " + T1 + " 2020/366,", 2, {}});
  v.push_back ({"FDSN:XX_* notatime", 3, {}});
  v.push_back ({"XX ST? LHZ", 3, {}});
  v.push_back ({"a b c d e f g h", 3, {}});
  v.push_back ({"FDSN:" + bytes (94, 'Q'), 1, {"FDSN:" + bytes (94, 'Q'), 0, {{U, U}}}});
  v.push_back ({"FDSN:" + bytes (95, 'Q'), 2, {}});
  v.push_back ({"FDSN:" + bytes (300, 'Q'), 2, {}});
  v.push_back ({"FDSN:XX_* " + bytes (180, ' ') + T1 + " " + T2, 2, {}}); // longer than a line may be, the cut inside and before a time
  v.push_back ({"FDSN:XX_* " + T1 + bytes (170, ' ') + T2, 2, {}});
  v.push_back ({"XX ST? -- LH? 1 " + bytes (200, ' ') + T1, 2, {}});
  v.push_back ({"#" + bytes (400, '*'), 0, {}});
  v.push_back ({"FDSN:LL_*" + bytes (230, ' '), 1, {"FDSN:LL_*", 0, {{U, U}}}});
  return v;
}
static void add_model (std::vector<E> &m, const E &e)
{
  for (auto &x : m) if (x.pat == e.pat && x.pv == e.pv) { x.w.insert (x.w.end (), e.w.begin (), e.w.end ()); return; }
  m.push_back (e);
}
static void file (Ctx &c, int maxlines, bool stdin_ = false)
{
  MemCheck mcheck;
  static const std::vector<Line> L = file_lines ();
  int n = c.pick (maxlines + 1);
  static const char *eols[] = {"\n", "\r\n", " \t\n"};
  bytes text; std::vector<E> model; int count = 0, skipped = 0; bool bad = false;
  for (int i = 0; i < n; i++)
  {
    const Line &l = L[c.pick ((int)L.size ())];
    bytes lead = n < 3 && l.text.size () < 150 ? (c.pick (2) ? " \t" : "") : "";
    text += lead + l.text;
    if (bad) {}
    else if (l.kind == 1) { add_model (model, l.e); count++; }
    else if (l.kind == 2) bad = true;
    else if (l.kind == 3) skipped++;
    if (i + 1 < n || n == 3) text += "\n"; else { int k = c.pick (4); text += k < 3 ? eols[k] : ""; }
  }
 
  bytes path = mc::fmt ("%s/sel-%d", getenv ("MC_SCRATCH"), getpid ());
  FILE *fp = fopen (path.c_str (), "wb"); fwrite (text.data (), 1, text.size (), fp); fclose (fp);
  int fd0 = dup (0); close (fd0);
  MS3Selections *sel = NULL; int w0 = log ().count;
  if (stdin_ && !freopen (path.c_str (), "rb", stdin)) fail ("standard input");
  if (stdin_) fd0 = dup (0), close (fd0);
  int rv = ms3_readselectionsfile (&sel, stdin_ ? "-" : path.c_str ()); c.step ();
  if (stdin_ && fcntl (0, F_GETFD) < 0) fail ("standard input closed after:\n%s", text.c_str ());
  int fd1 = dup (0); close (fd1);
  if (fd0 != fd1) fail ("selection file left open after:\n%s", text.c_str ());
  if (bad ? rv != -1 : rv != count) fail ("%d returned, expected %d, for the selection file:\n%s", rv, bad ? -1 : count, text.c_str ());
  if ((bad || skipped) && log ().count == w0) fail ("no message for the selection file:\n%s", text.c_str ());
  if (!bad)
  {
    std::vector<E> got; int entries = 0;
    for (auto *s = sel; s; s = s->next) { E e; e.pat = s->sidpattern; e.pv = s->pubversion; for (auto *t = s->timewindows; t; t = t->next) e.w.push_back ({t->starttime, t->endtime}); add_model (got, e); entries++; }
    auto norm = [] (std::vector<E> v) { std::multiset<bytes> o; for (auto &e : v) for (auto &w : e.w) o.insert (mc::fmt ("%s|%d|%lld|%lld", e.pat.c_str (), e.pv, (long long)w.s, (long long)w.e)); return o; };
    if (norm (got) != norm (model)) { bytes g, m; for (auto &x : norm (got)) g += x + "\n"; for (auto &x : norm (model)) m += x + "\n"; fail ("selection file:\n%s\nadded:\n%sexpected:\n%s", text.c_str (), g.c_str (), m.c_str ()); }
    if (count) c.nontriv ();
  }
  ms3_freeselections (sel); unlink (path.c_str ());
  mcheck.done ("selection file");
}

// ---- reading with selections
static const char *RS[] = {"FDSN:XX_A__L_H_Z", "FDSN:XX_B_00_L_H_Z"};
struct R { int sid, start, pv, n; bytes b; };
static R rec (int sid, int start, int pv, int n)
{
  R r{sid, start, pv, n, ""}; Rec3 q; q.sid = RS[sid]; q.settime (at (start)); q.pubver = pv; q.samprate = 1; q.numsamples = n;
  for (int i = 0; i < n; i++) put (q.data, 1000 * sid + 100 * start + i, 4, 0);
  r.b = q.build (); return r;
}
static void reading (Ctx &c)
{
  MemCheck mcheck;
  int nr = 1 + c.pick (3);
  std::vector<R> recs; bytes all;
  for (int i = 0; i < nr; i++) { R r = rec (c.pick (2), nr == 3 && !thorough ? (i + c.pick (2)) % 3 * 3 : c.pick (3) * 3, nr == 3 && !thorough ? 1 + i % 2 : 1 + c.pick (2), 2); recs.push_back (r); all += r.b; }
  static const char *pats[] = {"*", "FDSN:XX_A_*", "*_00_*", "FDSN:ZZ*"};
  E e; e.pat = pats[c.pick (4)]; e.pv = c.pick (3); static const int ws[] = {-1, 0, 2, 4, 6, 7}, we[] = {-1, 0, 1, 2, 3, 8};
  int a = ws[c.pick (6)], b = we[c.pick (6)];
  W w{a < 0 ? NSTUNSET : at (a), b < 0 ? NSTUNSET : at (b)};
  if (w.s != NSTUNSET && w.e != NSTUNSET && w.s > w.e) return;
  e.w.push_back (w);
 
  bytes path = mc::fmt ("%s/rec-%d", getenv ("MC_SCRATCH"), getpid ());
  FILE *fp = fopen (path.c_str (), "wb"); fwrite (all.data (), 1, all.size (), fp); fclose (fp);
  MS3Selections *sel = NULL; ms3_addselect (&sel, e.pat.c_str (), w.s, w.e, e.pv);
  bytes what = mc::fmt ("selection %s v%d %d..%d of", e.pat.c_str (), e.pv, a, b); for (auto &r : recs) what += mc::fmt (" %c@%dv%d", 'A' + r.sid, r.start, r.pv);
  std::vector<R *> want; for (auto &r : recs) if (entry_match (e, RS[r.sid], at (r.start), at (r.start + r.n - 1), r.pv)) want.push_back (&r);
  // record reader
  MS3FileParam *msfp = NULL; MS3Record *msr = NULL; size_t k = 0; int rv;
  while ((rv = ms3_readmsr_selection (&msfp, &msr, path.c_str (), MSF_UNPACKDATA | MSF_VALIDATECRC, sel, 0)) == MS_NOERROR)
  {
    c.step ();
    if (k >= want.size ()) fail ("%s: more records delivered than match", what.c_str ());
    if (msr->reclen != (int)want[k]->b.size () || memcmp (msr->record, want[k]->b.data (), msr->reclen)) fail ("%s: record %zu delivered is not the %zu-th that matches", what.c_str (), k, k);
    k++;
  }
  if (rv != MS_ENDOFFILE) fail ("%s: reading ended with %d", what.c_str (), rv);
  if (k != want.size ()) fail ("%s: %zu records delivered, %zu match", what.c_str (), k, want.size ());
  ms3_readmsr_selection (&msfp, &msr, NULL, 0, NULL, 0);
  // trace lists from file and memory: the same records by hand
  MS3TraceList *ref_ = mstl3_init (NULL); for (auto *r : want) { MS3Record *m = NULL; if (msr3_parse (&r->b[0], r->b.size (), &m, MSF_UNPACKDATA, 0)) fail ("parse"); mstl3_addmsr (ref_, m, 1, 1, 0, NULL); msr3_free (&m); }
  auto sig = [] (MS3TraceList *l) { bytes o; for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *s = id->first; s; s = s->next) { o += mc::fmt ("%s v%d %lld %lld %lld:", id->sid, id->pubversion, (long long)s->starttime, (long long)s->endtime, (long long)s->samplecnt); for (int64_t i = 0; i < s->numsamples; i++) o += mc::fmt (" %d", ((int32_t *)s->datasamples)[i]); o += "\n"; } return o; };
  for (int mode = 0; mode < 2; mode++)
  {
    MS3TraceList *l = NULL;
    if (mode == 0) rv = ms3_readtracelist_selection (&l, path.c_str (), NULL, sel, 1, MSF_UNPACKDATA, 0);
    else { Buf bf (all); rv = (int)mstl3_readbuffer_selection (&l, bf.p, bf.n, 1, MSF_UNPACKDATA, NULL, sel, 0); rv = rv == nr ? 0 : rv < 0 ? rv : rv == (int)want.size () ? 0 : 1000 + rv; }
    c.step ();
    if (rv) fail ("%s: reading a trace list from %s returned %d", what.c_str (), mode ? "memory" : "a file", rv);
    if (sig (l) != sig (ref_)) fail ("%s: trace list from %s\n%sexpected\n%s", what.c_str (), mode ? "memory" : "a file", sig (l).c_str (), sig (ref_).c_str ());
    mstl3_free (&l, 0);
  }
  mstl3_free (&ref_, 0); ms3_freeselections (sel); unlink (path.c_str ());
  mcheck.done (what.c_str ());
  if (!want.empty () && want.size () < recs.size ()) c.nontriv ();
}

int main (int argc, char **argv)
{
  setup (); thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  mc::Config cfg; cfg.property = "P12";
  cfg.rule = "every pattern over a 9-symbol alphabet up to the stated length against every string up to length 4; every arrangement of entries, windows and versions on a time grid against every span; every sequence of selection file line shapes; every record set and selection on a grid read through each reader; the library's answer is compared with an independent reading of the documentation";
  cfg.assumptions = {"patterns with sets that are not closed, contain a backslash, end a range with ']' or chain ranges are not documented and not judged", "windows with end before start are not judged", "when no record of a stream matches, the reader may end with either end-of-file or its no-data error"};
  int GL = thorough ? 6 : 5;
  cfg.scenarios.push_back ({"glob", [=] (Ctx &c) { static const std::vector<bytes> S = all_strings ("ab-^]", 3), S2 = all_strings ("abc", 4); bytes p = pick_string (c, "ab*?[]^-\\", GL); check_glob (c, p, S); check_glob (c, p, S2); }, mc::fmt ("patterns up to length %d over ab*?[]^-\\, strings over ab-^] up to 3 and abc up to 4", GL)});
  cfg.scenarios.push_back ({"glob-mixed", [=] (Ctx &c) {
    static const char *parts[] = {"a", "*", "?", "[ab]", "[^a]", "[a-c]", "[-b]", "[]c]", "\\*", "\\[", "c"};
    static const std::vector<bytes> S = all_strings ("abc*", 4), S2 = all_strings ("a]-[", 3);
    bytes p; int n = 1 + c.pick (thorough ? 5 : 4); for (int i = 0; i < n; i++) p += parts[c.pick (11)]; check_glob (c, p, S); check_glob (c, p, S2); }, "sequences of up to 4 (5) of 11 pattern elements"});
  cfg.scenarios.push_back ({"glob-sets", [=] (Ctx &c) {
    static std::vector<bytes> S; if (S.empty ()) for (int ch = 33; ch < 127; ch++) { S.push_back (bytes (1, ch)); S.push_back (bytes ("x") + (char)ch + "y"); }
    static const char *el[] = {"B", "H", "A-E", "E-A", "C-C", "D-H", "0-9", "a-z", "-", "_", "*", "?", "!", "A-Z", "\\"};
    static const char *before[] = {"", "x", "*", "?"}, *after[] = {"", "y", "*", "?"};
    bytes p = before[c.pick (4)]; p += '['; if (c.flip ()) p += '^';
    int n = 1 + c.pick (thorough ? 4 : 3); for (int i = 0; i < n; i++) p += el[c.pick (15)];
    p += ']'; p += after[c.pick (4)]; check_glob (c, p, S); }, "character sets, plain and negated, of up to 3 (4) of 15 elements, in 16 contexts, against every printable character"});
  cfg.scenarios.push_back ({"windows", windows, "one entry with up to 2 windows or 2 entries, versions 0-2, times on a 7-point grid, all record spans on it"});
  cfg.scenarios.push_back ({"codes", comp, "6 x 6 x 6 x 17 code combinations"});
  cfg.scenarios.push_back ({"files", [] (Ctx &c) { file (c, 2 + thorough); }, "sequences of up to 2 (3) of 32 line shapes, line ends and indentation"});
  cfg.scenarios.push_back ({"standard input", [] (Ctx &c) { file (c, 1 + thorough, true); }, "files of up to 1 (2) lines of 32 shapes on standard input, read under the name -"});
  cfg.scenarios.push_back ({"no file", [] (Ctx &c) {
    int what = c.pick (3), pre = c.pick (2); MemCheck mk; bytes path = mc::fmt ("%s/none-%d", getenv ("MC_SCRATCH"), getpid ()), dir = getenv ("MC_SCRATCH");
    MS3Selections *sel = NULL; if (pre) ms3_addselect (&sel, "X*", NSTUNSET, NSTUNSET, 0);
    bytes name = what == 0 ? path : what == 1 ? path + "/x" : dir + "/"; int w0 = log ().count;
    int rv = ms3_readselectionsfile (&sel, name.c_str ()); c.step ();
    if (what < 2 ? rv != -1 || log ().count == w0 : rv > 0) fail ("reading selections from %s returned %d, messages %d", what == 0 ? "a missing file" : what == 1 ? "a missing directory" : "a directory", rv, log ().count - w0);
    if (pre ? !sel || sel->next || strcmp (sel->sidpattern, "X*") || sel->timewindows->next : sel != NULL) fail ("selections changed by a missing file");
    ms3_freeselections (sel); mk.done ("no file"); c.nontriv (); c.state (mc::Hash ().i (what).i (pre));
  }, "missing file, missing directory, a directory; with and without selections before"});
  cfg.scenarios.push_back ({"reading", reading, "1-3 records of 2 identifiers x 3 times x 2 versions, 4 patterns x 3 versions x window grid, three readers"});
  return mc::run (argc, argv, cfg);
}
