// P18: sample type conversion of trace list segments.
#include "ref.hpp"
using namespace ref;
using mc::Ctx; using mc::fail;
static size_t tsize (char t) { return t == 'i' || t == 'f' ? 4 : t == 'd' ? 8 : 1; }
struct Model { char type = 0; std::vector<double> v; bytes raw () const { bytes b; for (double x : v) b += type == 'i' ? enc ((uint32_t)(int32_t)x, 4, 0) : type == 'f' ? enc (fbits ((float)x), 4, 0) : type == 'd' ? enc (dbits (x), 8, 0) : bytes (1, (char)x); return b; } };
static const double IV[] = {0, 1, -1, 2, -3, 100, -100, 16777216, 16777217, -16777217, 2147483647, -2147483648.0, 2147483646, 33554433};
static const double FV[] = {0, -0.0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.25, -0.25, 0.75, -0.75, 3, -3, 39.9999962, -39.9999962, 4194303.5, -4194303.5, 16777216, -16777216, 2147483520, -2147483648.0, 2147483648.0, -2147483904.0, 3e9, 1e30, -1e30, INFINITY, -INFINITY, NAN, 1e-30, 1.17549435e-38};
static const double DV[] = {0, -0.0, 1, -1, 0.5, -0.5, -1.5, 2.5, -2.5, 0.25, -0.25, 0.75, -0.75, -3, 39.99999999, -39.99999999, 0.49999999999999994, -0.49999999999999994, 4503599627370495.5, 0.1, -0.1, 123456.001, -123456.001, 2147483647, 2147483647.25, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.25, -2147483648.5, -2147483649.0, 1e300, -1e300, INFINITY, NAN, 16777217, 1.0000000001};
static std::vector<double> alpha (char t) { if (t == 'i') return {std::begin (IV), std::end (IV)}; if (t == 'f') return {std::begin (FV), std::end (FV)}; if (t == 'd') return {std::begin (DV), std::end (DV)}; return {'a', 'b', 0, 127}; }
static bool sameval (double a, double b) { return dbits (a) == dbits (b) || (a != a && b != b); }
static MS3TraceList *make (const Model &m, MS3Record &r)
{
  MS3TraceList *l = mstl3_init (NULL);
  memset (&r, 0, sizeof r); r.reclen = -1; strcpy (r.sid, "FDSN:XX_A__L_H_Z"); r.samprate = 1; r.formatversion = 3; r.samplecnt = m.v.size ();
  static thread_local bytes keep; keep = m.raw (); if (keep.empty ()) keep = "x";
  r.datasamples = &keep[0]; r.numsamples = m.v.size (); r.sampletype = m.type; r.datasize = keep.size ();
  if (!mstl3_addmsr (l, &r, 0, 1, 0, NULL)) { mstl3_free (&l, 0); return nullptr; }
  return l;
}
static Model of (const MS3TraceSeg *s)
{
  Model m; m.type = s->sampletype;
  if (s->datasize < (uint64_t)s->numsamples * tsize (s->sampletype)) fail ("segment of %lld '%c' samples says its buffer has %llu bytes", (long long)s->numsamples, s->sampletype, (unsigned long long)s->datasize);
  for (int64_t i = 0; i < s->numsamples; i++) m.v.push_back (m.type == 'i' ? ((int32_t *)s->datasamples)[i] : m.type == 'f' ? ((float *)s->datasamples)[i] : m.type == 'd' ? ((double *)s->datasamples)[i] : ((char *)s->datasamples)[i]);
  return m;
}
// one conversion of the segment compared with the definition
static void convert (Ctx &c, MS3TraceSeg *s, char to, int trunc_ok)
{
  Model a = of (s); bytes before ((char *)s->datasamples, a.raw ().size ()); int64_t cnt = s->samplecnt; nstime_t t0 = s->starttime, t1 = s->endtime;
  int rv = mstl3_convertsamples (s, to, trunc_ok); c.step ();
  Model b = of (s);
  bytes what = mc::fmt ("conversion of %zu '%c' samples", a.v.size (), a.type); for (size_t i = 0; i < a.v.size () && i < 4; i++) what += " " + dbl_s (a.v[i]); what += mc::fmt (" to '%c'%s returned %d:", to, trunc_ok ? " allowing loss" : "", rv);
  c.say ("%s", what.c_str ());
  if (s->samplecnt != cnt || s->starttime != t0 || s->endtime != t1) fail ("%s count or times changed", what.c_str ());
  if (rv && (b.type != a.type || s->numsamples != (int64_t)a.v.size () || bytes ((char *)s->datasamples, before.size ()) != before)) fail ("%s failed but changed the segment", what.c_str ());
  if (to == a.type) { if (rv || b.raw () != a.raw ()) fail ("%s no conversion needed", what.c_str ()); return; }
  bool may = (a.type == 'i' || a.type == 'f' || a.type == 'd') && (to == 'i' || to == 'f' || to == 'd');
  if (!may) { if (!rv) fail ("%s unsupported, not refused", what.c_str ()); return; }
  bool must_fail = false;
  if (to == 'i') for (double x : a.v)
  {
    if (!(x > -2147483648.5 && x < 2147483647.5)) must_fail = true;
    else if (!trunc_ok && fabs (x - std::trunc (x)) > 0.000001) must_fail = true;
    else if (!trunc_ok && x != std::trunc (x)) { if (fabs (x - std::trunc (x)) > 0.0000009) return; }
  }
  if (must_fail) { if (!rv) fail ("%s values that cannot be converted were accepted", what.c_str ()); c.nontriv (); return; }
  if (rv) fail ("%s refused although every value can be converted", what.c_str ());
  if (b.type != to || b.v.size () != a.v.size ()) fail ("%s is now %zu '%c' samples", what.c_str (), b.v.size (), b.type);
  for (size_t i = 0; i < a.v.size (); i++)
  {
    double x = a.v[i], y = b.v[i];
    bool ok = to == 'd' ? sameval (y, x) : to == 'f' ? sameval (y, (double)(float)x) : fabs (y - x) <= 0.5 && y == std::trunc (y);
    if (!ok) fail ("%s sample %zu is %.17g, expected %.17g", what.c_str (), i, y, to == 'i' ? std::round (x) : x);
  }
  c.nontriv ();
}
int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P18";
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  cfg.rule = "after every conversion each sample equals the source value (integer or float to double), the nearest float (to float) or the nearest integer (to integer: exactly, or rounded when loss is allowed); conversions with any fractional value (beyond the documented 0.000001) without permission, with any value outside 32-bit integers, or with text or unknown types return an error and leave type, count and bytes as before";
  cfg.assumptions = {"conversion to float rounds to the nearest float whether or not loss is allowed (the documented check is about integers)", "values at exactly half may round to either neighbour"};
  int LN = th ? 4 : 3;
  cfg.scenarios.push_back ({"one-conversion", [=] (Ctx &c) {
    Model m; m.type = "ifdt"[c.pick (4)]; auto al = alpha (m.type);
    char to = "ifdtax"[c.pick (6)]; int tr = c.flip (); int pre = c.flip ();
    int n = 1 + c.pick (LN);
    if (n == 4 && (pre || !strchr ("ifd", to))) return;
    for (int i = 0; i + 1 < n; i++) m.v.push_back (c.of (al));
    size_t keep = libmseed_prealloc_block_size;
    m.v.push_back (0);
    for (double last : al)
    {
      m.v.back () = last;
      MemCheck mk; MS3Record r;
      libmseed_prealloc_block_size = pre ? 4096 : 0;
      MS3TraceList *l = make (m, r); if (!l) { libmseed_prealloc_block_size = keep; fail ("record not added"); }
      MS3TraceSeg *s = l->traces.next[0]->first;
      try { convert (c, s, to, tr); } catch (...) { libmseed_prealloc_block_size = keep; throw; }
      c.state (mc::Hash ().u (s->sampletype).u (tr).s (bytes ((char *)s->datasamples, s->numsamples * tsize (s->sampletype))));
      mstl3_free (&l, 0); mk.done ("convert and free");
    }
    libmseed_prealloc_block_size = keep;
  }, mc::fmt ("4 source types x 6 target types x loss allowed or not x preallocation on/off x all sequences of 1..%d values over 14/34/37 values with both signs, halves, fractions, extremes, not-a-number", LN)});
  // positions: one special value at every position of a longer segment, then further use of the segment
  cfg.scenarios.push_back ({"position-in-long-segment", [=] (Ctx &c) {
    Model m; m.type = "fd"[c.flip ()]; auto al = alpha (m.type); int n = 1 + c.pick (th ? 300 : 40); double special = c.of (al); int tr = c.flip ();
    for (int pos : {0, n / 2, n - 1})
    {
      m.v.assign (n, 0); for (int i = 0; i < n; i++) m.v[i] = (i % 2 ? -1 : 1) * i; m.v[pos] = special;
      MemCheck mk; MS3Record r; MS3TraceList *l = make (m, r); MS3TraceSeg *s = l->traces.next[0]->first;
      convert (c, s, 'i', tr);
      c.state (mc::Hash ().u (n).u (pos).d (special).u (tr));
      mstl3_free (&l, 0); mk.done ("convert and free");
    }
  }, "float and double segments of 1..40 values, one value of the alphabet first, in the middle, last"});
  // histories: conversions one after another, with records of matching type appended, then packed and parsed back
  cfg.scenarios.push_back ({"histories", [=] (Ctx &c) {
    Model m; m.type = "ifd"[c.pick (3)]; static const std::vector<double> start[] = {{}, {1}, {1, -2, 3}, {5, -0.5}, {7, 8, 9, -10, 11}};
    m.v = start[c.pick (5)]; if (m.type == 'i') for (auto &x : m.v) x = std::trunc (x);
    size_t pre = c.flip () ? 64 : 0, keep = libmseed_prealloc_block_size;
    MemCheck mk; MS3Record r;
    libmseed_prealloc_block_size = pre;
    try {
    MS3TraceList *l = make (m, r); if (!l) fail ("record not added"); MS3TraceSeg *s = l->traces.next[0]->first;
    int D = th ? 5 : 4, d = 0; bool data = m.v.size () > 0;
    for (; d < D; d++)
    {
      int op = c.pick (8);
      if (op == 7) break;
      if (op < 6) { if (data) convert (c, s, "ifd"[op % 3], op / 3); else { int rv = mstl3_convertsamples (s, "ifd"[op % 3], op / 3); if (rv) fail ("conversion of an empty segment returned %d", rv); if (s->numsamples || s->sampletype != "ifd"[op % 3]) fail ("empty segment became %lld '%c' samples", (long long)s->numsamples, s->sampletype); c.step (); } }
      else
      { // append a record that abuts
        Model before; if (data) before = of (s);
        int32_t iv[3] = {21, -22, 23}; float fv[3] = {21, -22, 23}; double dv[3] = {21, -22, 23};
        MS3Record q; memset (&q, 0, sizeof q); q.reclen = -1; strcpy (q.sid, r.sid); q.samprate = 1; q.formatversion = 3; q.starttime = s->endtime + (s->samplecnt ? 1000000000LL : 0);
        q.samplecnt = q.numsamples = 3; q.sampletype = s->sampletype; q.datasamples = s->sampletype == 'i' ? (void *)iv : s->sampletype == 'f' ? (void *)fv : (void *)dv; q.datasize = 3 * tsize (s->sampletype);
        if (!data) { q.sampletype = 'i'; q.datasamples = iv; q.datasize = 12; break; }
        if (!mstl3_addmsr (l, &q, 0, 1, 0, NULL)) fail ("record not added");
        if (l->numtraceids != 1 || l->traces.next[0]->numsegments != 1) fail ("abutting record of the same type made %u segments", l->traces.next[0]->numsegments);
        s = l->traces.next[0]->first; Model now = of (s); before.v.insert (before.v.end (), {21, -22, 23});
        if (now.raw () != before.raw ()) fail ("samples after appending to a converted segment differ");
        c.step ();
      }
      c.state (mc::Hash ().u (s->sampletype).s (bytes (s->datasamples ? (char *)s->datasamples : "", s->numsamples * tsize (s->sampletype))).u (pre));
    }
    if (!data && (mstl3_convertsamples (s, 't', 1) != -1 || mstl3_convertsamples (s, 'x', 1) != -1 || s->sampletype == 't')) fail ("an empty segment was converted to text");
    Model e = of (s);
    if (mstl3_resize_buffers (l)) fail ("resize"); Model e2 = of (l->traces.next[0]->first); if (e2.raw () != e.raw ()) fail ("resize changed samples");
    mstl3_free (&l, 0); mk.done ("conversion history");
    } catch (...) { libmseed_prealloc_block_size = keep; throw; }
    libmseed_prealloc_block_size = keep;
  }, mc::fmt ("all sequences of up to %d operations from {6 conversions, append abutting record, stop} from 3 types x 5 starting segments x preallocation", th ? 5 : 4)});
  return mc::run (argc, argv, cfg);
}
