// P09: a trace list holds exactly the coverage of its records, in any arrival order.
#include "tl.hpp"
#include <malloc.h>
using namespace tl;

static const nstime_t T0 = 1700000000000000000LL;
static double g_ttol, g_rtol;
static double ttol (const MS3Record *) { return g_ttol; }
static double rtol (const MS3Record *) { return g_rtol; }
struct Tol // tolerances of the caller: NaN means the default
{
  double t = NAN, r = NAN;
  const MS3Tolerance *use (MS3Tolerance *m) const
  {
    m->time = std::isnan (t) ? NULL : ttol; m->samprate = std::isnan (r) ? NULL : rtol; g_ttol = t; g_rtol = r;
    return m->time || m->samprate ? m : NULL;
  }
  nstime_t time (const R &a) const { return std::isnan (t) ? (nstime_t) (0.5 * a.period ()) : (nstime_t) (1e9 * t); }
  bool rate (const R &a, const R &b) const
  {
    double x = a.hz (), y = b.hz ();
    if (!std::isnan (r) && r > 0) return fabs (x - y) <= r;
    return fabs (1.0 - x / y) < 0.0001;
  }
  // b follows a directly, as judged when either is added to the other
  bool joins (const R &a, const R &b) const
  {
    if (a.sid != b.sid || !rate (a, b)) return false;
    auto ok = [&] (const R &by) { nstime_t g = b.start - a.end () - by.period (), t = time (by); return g <= t && g >= -t; };
    return ok (a) && ok (b);
  }
  bool never (const R &a, const R &b) const
  {
    if (a.sid != b.sid || (!rate (a, b) && !rate (b, a))) return true;
    auto ok = [&] (const R &by) { nstime_t g = b.start - a.end () - by.period (), t = time (by); return g <= t && g >= -t; };
    return !ok (a) && !ok (b);
  }
};
static MS3TraceSeg *add (MS3TraceList *l, const R &r, bool split, bool heal, bool rl, const Tol &tol)
{
  Msr m (r); MS3Tolerance mt; bytes before = msr_str (m.m);
  MS3RecordPtr *rp = NULL;
  MS3TraceSeg *s = mstl3_addmsr_recordptr (l, m.m, rl ? &rp : NULL, split, heal, 0, tol.use (&mt));
  if (!s) return NULL;
  if (rl) { if (!rp) fail ("no record pointer returned"); rp->prvtptr = (void *)(intptr_t)r.key; }
  if (msr_str (m.m) != before || (m.m->datasamples && bytes ((char *)m.m->datasamples, m.s.size ()) != r.samples ())) fail ("the record of the caller was changed");
  if (s->starttime > r.start || s->endtime < r.end ()) fail ("the segment returned does not cover the record");
  return s;
}
struct AutoList : List { bool rl; AutoList (bool r) : rl (r) {} ~AutoList () { if (l) mstl3_free (&l, 0); l = NULL; } }; // private pointers here are keys

// joined records within a segment abut; gaps and overlaps beyond tolerance separate
static void check_joins (const std::vector<IdView> &v, const std::vector<R> &rs, const Tol &tol)
{
  std::map<int, const R *> by; for (auto &r : rs) by[r.key] = &r;
  for (auto &i : v) for (auto &s : i.segs) for (size_t k = 1; k < s.keys.size (); k++)
    if (tol.never (*by[s.keys[k - 1]], *by[s.keys[k]])) fail ("records %d and %d joined although they do not abut within tolerance at similar rates", s.keys[k - 1], s.keys[k]);
}
// with healing and every record having at most one neighbour on each side, the segments are the maximal chains
static bool chains (const std::vector<R> &rs, const Tol &tol, bool split, std::map<bytes, std::set<std::vector<int>>> &out)
{
  std::map<int, int> next, prev; size_t covered = 0;
  for (auto &a : rs) for (auto &b : rs)
  {
    if (a.key == b.key || (split && a.ver != b.ver) || tol.never (a, b)) continue;
    if (!tol.joins (a, b) || next.count (a.key) || prev.count (b.key)) return false;
    next[a.key] = b.key; prev[b.key] = a.key;
  }
  for (auto &a : rs) if (!prev.count (a.key)) { std::vector<int> ch; for (int k = a.key;; k = next[k]) { ch.push_back (k); covered++; if (!next.count (k)) break; } out[a.sid + (split ? fmt (" v%d", a.ver) : "")].insert (ch); }
  return covered == rs.size (); // tolerances wider than records can make them follow each other in a circle
}
static void expect_chains (const std::vector<IdView> &v, const std::map<bytes, std::set<std::vector<int>>> &want, bool split)
{
  std::map<bytes, std::set<std::vector<int>>> got;
  for (auto &i : v) for (auto &s : i.segs) got[i.sid + (split ? fmt (" v%d", i.ver) : "")].insert (s.keys);
  if (got == want) return;
  auto str = [] (const std::map<bytes, std::set<std::vector<int>>> &m) { bytes b; for (auto &p : m) { b += p.first + ":"; for (auto &s : p.second) { b += " ("; for (int k : s) b += fmt (" %d", k); b += " )"; } b += "; "; } return b; };
  fail ("segments are %s expected %s", str (got).c_str (), str (want).c_str ());
}
// nothing that could be joined is left apart after healing
static void maximal (const std::vector<IdView> &v, nstime_t period)
{
  for (auto &i : v) for (auto &a : i.segs) for (auto &b : i.segs)
    if (&a != &b && b.start - a.end == period && a.rate == b.rate) fail ("segments of %s that abut were not joined: the one ending with record %d and the one starting with record %d", i.sid.c_str (), a.keys.back (), b.keys.front ());
}
static std::vector<int> permutation (Ctx &c, int n)
{
  std::vector<int> left, p; for (int i = 0; i < n; i++) left.push_back (i);
  while (left.size ()) { int k = left.size () > 1 ? c.pick (left.size ()) : 0; p.push_back (left[k]); left.erase (left.begin () + k); }
  return p;
}

// not in the public header; the scenario that uses it is empty where it does not exist
extern "C" MS3TraceID *mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev) __attribute__ ((weak));
int main (int argc, char **argv)
{
  setup ();
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P09";
  cfg.rule = "every history of added records within the stated alphabets and lengths; the whole list is inspected after every addition";
  cfg.assumptions = {"the samples of every record are distinct, so that their place in the list identifies the record", "records hold samples; adjacency is judged from record times computed independently, without leap seconds except where stated"};
  const char *SID = "FDSN:XX_STA_00_H_H_Z";
  const Tol DEF;

  // ---- tiles with every gap vector in every arrival order
  for (int heal = 1; heal >= 0; heal--)
    cfg.scenarios.push_back ({heal ? "gaps-heal" : "gaps-plain", [=] (Ctx &c) {
      MemCheck mk;
      {
        int n = thorough ? 2 + c.pick (4) : 2 + c.pick (3);
        double rate = n >= 5 ? 1.0 : c.one<double> ({1.0, 200.0, -10.0, 3.0, 0.1});
        Tol tol; int t = n >= 5 ? 0 : c.pick (4); R p; if (t == 1) tol.t = 0;
        p.rate = rate; if (t == 2) tol.t = 0.25 * p.period () / 1e9; if (t == 3) tol.t = 1.5 * p.period () / 1e9; // shorter than the records
        p.sid = SID; nstime_t per = p.period (), tt = tol.time (p);
        // signed deviations from exact continuity; at 3 Hz periods are rounded, so stay 2 ns off the edge
        nstime_t e = rate == 3.0 ? 2 : 0;
        std::vector<nstime_t> D = {0, tt - e, tt + 1 + e, -tt + e, -tt - 1 - e, per, -per, 3 * per + 2 * tt + 5};
        if (n == 4 && !thorough) D = {0, tt - e, tt + 1 + e, -tt - 1 - e};
        if (n == 5) D = {0, tt + 1, -tt - 1};
        std::vector<R> rs; nstime_t at = T0;
        for (int i = 0; i < n; i++)
        {
          R r = p; r.key = i + 1; r.n = 3 + (i % 2) * 2; if (i) at += c.of (D); r.start = at; r.ver = 1 + (i * 2) % 3; at = r.end () + per;
          rs.push_back (r);
        }
        bool rl = c.flip ();
        AutoList L (rl); std::vector<R> sofar; std::vector<IdView> v;
        for (int i : permutation (c, n))
        {
          if (!add (L.l, rs[i], false, heal, rl, tol)) fail ("record not added");
          c.step (); sofar.push_back (rs[i]);
          v = inspect (L.l, sofar, false, rl); check_joins (v, sofar, tol);
          std::map<bytes, std::set<std::vector<int>>> want;
          if (heal && chains (sofar, tol, false, want)) { expect_chains (v, want, false); c.nontriv (); }
          if (!heal) c.nontriv ();
        }
        { Hash h; for (auto &r : rs) h.i (r.start); c.state (h.u (digest (v)).u (n).d (rate).u (t)); }
      }
      mk.done ("trace list");
    }, fmt ("2 to %d records, each next one continuous, at, just inside and just outside the tolerance, one sample early or late, or far; 5 rates (Hz and period form), 4 time tolerances, all arrival orders, with and without record lists", thorough ? 5 : 4)});

  // ---- long continuous spans in all orders
  cfg.scenarios.push_back ({"orders", [=] (Ctx &c) {
    MemCheck mk;
    {
      int n = thorough ? 8 : 7; R p; p.sid = SID; p.rate = 20; std::vector<R> rs; nstime_t at = T0;
      int prealloc = c.pick (2), shrink = prealloc && n == 7 ? c.pick (3) : 0; size_t save = libmseed_prealloc_block_size; libmseed_prealloc_block_size = prealloc ? 48 : 0;
      struct Restore { size_t v; ~Restore () { libmseed_prealloc_block_size = v; } } restore{save};
      char type = prealloc ? 'd' : 'i';
      for (int i = 0; i < n; i++) { R r = p; r.key = i + 1; r.type = type; r.n = 1 + (i * 5) % 4; r.start = at; at = r.end () + r.period (); rs.push_back (r); }
      AutoList L (false); std::vector<R> sofar;
      for (int i : permutation (c, n))
      {
        if (!add (L.l, rs[i], false, true, false, DEF)) fail ("record not added");
        c.step (); sofar.push_back (rs[i]);
        for (MS3TraceSeg *g = L.l->traces.next[0]->first; g; g = g->next)
          if (g->datasize < (size_t)g->numsamples * ms_samplesize (g->sampletype) || (g->datasamples && g->datasize > malloc_usable_size (g->datasamples))) fail ("sample buffer of a segment has another size than it states");
        if (shrink == 1 || (shrink == 2 && sofar.size () % 3 == 0))
        {
          if (mstl3_resize_buffers (L.l)) fail ("resizing refused");
          for (MS3TraceSeg *g = L.l->traces.next[0]->first; g; g = g->next) if (g->datasize != (size_t)g->numsamples * ms_samplesize (g->sampletype)) fail ("%zu bytes for %lld samples after resizing", g->datasize, (long long)g->numsamples);
        }
      }
      auto v = inspect (L.l, sofar, false);
      if (v.size () != 1 || v[0].segs.size () != 1) fail ("%zu segments for a continuous span", v[0].segs.size ());
      c.nontriv (); c.state (Hash ().u (digest (v)).u (prealloc));
    }
    mk.done ("trace list");
  }, fmt ("all %s arrival orders of %d records that tile a continuous span, with the default and with preallocated memory, then with buffers reduced to their samples never, after each and after every third record", thorough ? "40320" : "5040", thorough ? 8 : 7)});

  // ---- any histories of overlapping and repeated records
  cfg.scenarios.push_back ({"overlaps", [=] (Ctx &c) {
    MemCheck mk;
    {
      int len = thorough ? 5 : 4; bool heal = c.flip (), rl = !thorough && c.flip (); int slots = thorough ? 5 : 6;
      R p; p.sid = SID; AutoList L (rl); std::vector<R> sofar; std::vector<IdView> v;
      for (int k = 0; k < len; k++)
      {
        // all intervals of 1 to 3 slots of 2 samples
        std::vector<std::pair<int, int>> iv; for (int s = 0; s < slots; s++) for (int w = 1; w <= 3 && s + w <= slots; w++) iv.push_back ({s, w});
        auto x = iv[c.pick (iv.size ())];
        R r = p; r.key = k + 1; r.start = T0 + x.first * 2 * NS1; r.n = x.second * 2;
        if (!add (L.l, r, false, heal, rl, DEF)) fail ("record not added");
        c.step (); sofar.push_back (r);
        v = inspect (L.l, sofar, false, rl); check_joins (v, sofar, DEF);
        if (heal) maximal (v, r.period ());
        std::map<bytes, std::set<std::vector<int>>> want;
        if (heal && chains (sofar, DEF, false, want)) expect_chains (v, want, false);
        c.nontriv ();
      }
      c.state (Hash ().u (digest (v)).u (heal));
    }
    mk.done ("trace list");
  }, fmt ("all sequences of %d records over all intervals of 1 to 3 slots on a grid of %d, with and without healing", thorough ? 5 : 4, thorough ? 5 : 6)});

  // ---- rates
  cfg.scenarios.push_back ({"rates", [=] (Ctx &c) {
    MemCheck mk;
    {
      bool heal = c.flip (); int which = c.pick (5); Tol tol; std::vector<double> rates;
      switch (which)
      {
      case 0: rates = {10.0, 10.0009, 10.0011, 9.9991, 9.9989}; break;             // default: relative 1e-4, exclusive
      case 1: rates = {10.0, 10.5, 10.51, 9.5, 9.49}; tol.r = 0.5; break;           // absolute, inclusive
      case 2: rates = {10.0, 10.000001, 10.0011}; tol.r = 0; break;                // not positive: default
      case 3: rates = {-10.0, 0.1, 0.11, -10.02}; tol.r = 0.001; break;
      case 4: rates = {10.0, -0.1, 20.0}; tol.t = 0.3; break;
      }
      int n = thorough ? 4 : 3; std::vector<R> rs; nstime_t at = T0;
      for (int i = 0; i < n; i++)
      {
        R r; r.sid = SID; r.key = i + 1; r.rate = c.of (rates); r.n = 10; r.start = at; rs.push_back (r);
        // next to it, or the same coverage again
        if (c.pick (i + 1 < n ? 2 : 1) == 0) at = r.end () + r.period ();
      }
      AutoList L (true); std::vector<R> sofar; std::vector<IdView> v;
      for (int i : permutation (c, n))
      {
        if (!add (L.l, rs[i], false, heal, true, tol)) fail ("record not added");
        c.step (); sofar.push_back (rs[i]);
        v = inspect (L.l, sofar, false, true);
        std::map<bytes, std::set<std::vector<int>>> want;
        // similarity must be an equivalence on these records for the result to be determined: rates are compared with
        // the rate of the segment, which is that of its first arrival
        bool eq = true;
        {
          for (auto &a : sofar) for (auto &b : sofar) for (auto &d : sofar) if (tol.rate (a, b) && tol.rate (b, d) && !tol.rate (a, d)) eq = false;
          for (auto &a : sofar) for (auto &b : sofar) if (tol.rate (a, b) != tol.rate (b, a)) eq = false;
        }
        if (eq) check_joins (v, sofar, tol);
        if (heal && eq && chains (sofar, tol, false, want)) { expect_chains (v, want, false); c.nontriv (); }
      }
      c.state (Hash ().u (digest (v)).u (which).u (heal));
    }
    mk.done ("trace list");
  }, fmt ("%d records, one after another or over the same span, at rates just inside and outside the relative and absolute tolerances, all arrival orders, healing on and off", thorough ? 4 : 3)});

  // ---- identifiers and versions
  cfg.scenarios.push_back ({"versions", [=] (Ctx &c) {
    MemCheck mk;
    {
      bool split = c.flip (); int len = thorough ? 5 : 4;
      static const char *S[] = {"FDSN:XX_B__H_H_Z", "FDSN:XX_A__H_H_Z", "FDSN:XX_B__H_H_ZZ"};
      AutoList L (false); std::vector<R> sofar; std::vector<IdView> v;
      for (int k = 0; k < len; k++)
      {
        R r; r.key = k + 1; r.sid = S[c.pick (3)]; r.ver = c.one<int> ({1, 0, 2, 255}); r.start = T0 + (c.pick (k == 0 ? 1 : 2) ? 2 * k : 0) * NS1; r.n = 2;
        if (!add (L.l, r, split, true, false, DEF)) fail ("record not added");
        c.step (); sofar.push_back (r);
        v = inspect (L.l, sofar, split);
        std::map<bytes, std::set<std::vector<int>>> want;
        if (chains (sofar, DEF, split, want)) { expect_chains (v, want, split); c.nontriv (); }
        if (mstl3_findID (L.l, "FDSN:XX_C__H_H_Z", 0, NULL) || mstl3_findID (L.l, "FDSN:XX_", 0, NULL) || mstl3_findID (L.l, S[0], 77, NULL)) fail ("an absent identifier was found");
      }
      c.state (Hash ().u (digest (v)).u (split));
    }
    mk.done ("trace list");
  }, fmt ("all sequences of %d records over 3 identifiers (one a prefix of another), versions 0, 1, 2 and 255 and two placements, with and without splitting by version", thorough ? 5 : 4)});
  cfg.scenarios.push_back ({"many-identifiers", [=] (Ctx &c) {
    MemCheck mk;
    {
      int n = c.one<int> ({1, 2, 40, 600}); int order = c.pick (4); bool split = c.flip (); int dup = c.pick (2);
      AutoList L (false); std::vector<R> rs;
      for (int i = 0; i < n; i++)
      {
        int id = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (int)((i * 37LL) % n) : (i % 2 ? n - 1 - i / 2 : i / 2);
        if (order == 2 && n > 1 && n % 37 == 0) fail ("order");
        R r; r.key = i + 1; r.sid = fmt ("FDSN:XX_S%03d__H_H_Z", id); r.ver = 1 + id % 3; r.start = T0; r.n = 2;
        if (!add (L.l, r, split, true, false, DEF)) fail ("record not added");
        rs.push_back (r);
        if (dup) { r.key += 5000; r.start += 2 * NS1; if (!add (L.l, r, split, true, false, DEF)) fail ("record not added"); rs.push_back (r); }
        c.step ();
      }
      auto v = inspect (L.l, rs, split);
      if ((int)v.size () != n) fail ("%zu identifiers, expected %d", v.size (), n);
      for (auto &i : v) if (i.segs.size () != 1) fail ("%zu segments for %s", i.segs.size (), i.sid.c_str ());
      c.nontriv (); c.state (Hash ().u (digest (v)).u (split));
    }
    mk.done ("trace list");
  }, "1, 2, 40 and 600 identifiers added in ascending, descending, strided and alternating order"});

  // ---- identifiers added and searched by the caller
  if (mstl3_addID) cfg.scenarios.push_back ({"added-identifiers", [=] (Ctx &c) {
    MemCheck mk;
    {
      static const char *S[] = {"FDSN:XX_B__H_H_Z", "FDSN:XX_A__H_H_Z", "FDSN:XX_B__H_H_ZZ", ""};
      static const int V[] = {0, 1, 2, 255};
      AutoList L (false); std::map<std::pair<bytes, int>, MS3TraceID *> m; int len = thorough ? 5 : 4;
      L.l->prngstate = c.one<uint64_t> ({1, 2, 7, 0x9e3779b97f4a7c15ull});
      for (int k = 0; k < len; k++)
      {
        const char *sid = S[c.pick (4)]; int ver = V[c.pick (k < 2 ? 4 : 2)], way = c.pick (2);
        if (m.count ({sid, ver})) continue;
        MS3TraceID *prev[MSTRACEID_SKIPLIST_HEIGHT];
        MS3TraceID *f = mstl3_findID (L.l, sid, ver, way ? prev : NULL); c.step ();
        bool any = false; for (auto &p : m) if (p.first.first == sid) any = true;
        if (ver == 0 ? (f != NULL) != any : f != NULL) fail ("%s v%d %s", sid, ver, f ? "found before it was added" : "not found in any version");
        if (f && way) continue; // the place found is not where the version belongs
        MS3TraceID *id = (MS3TraceID *)libmseed_memory.malloc (sizeof *id); memset (id, 0, sizeof *id); for (auto &x : id->next) x = (MS3TraceID *)1;
        strcpy (id->sid, sid); id->pubversion = ver;
        if (mstl3_addID (L.l, id, way ? prev : NULL) != id) fail ("%s v%d not added", sid, ver);
        m[{sid, ver}] = id; c.nontriv ();
        // sorted, complete, and every level the same order thinned out
        if (L.l->numtraceids != m.size ()) fail ("%u identifiers counted, %zu added", L.l->numtraceids, m.size ());
        for (int lev = 0; lev < MSTRACEID_SKIPLIST_HEIGHT; lev++)
        {
          auto it = m.begin (); size_t n = 0;
          for (MS3TraceID *x = L.l->traces.next[lev]; x; x = x->next[lev], n++)
          {
            while (it != m.end () && it->second != x) { if (lev == 0) break; ++it; }
            if (it == m.end () || it->second != x) fail ("identifiers out of order at level %d", lev);
            if (lev >= x->height) fail ("identifier linked above its height"); ++it;
          }
          if (lev == 0 && n != m.size ()) fail ("%zu identifiers in the list, %zu added", n, m.size ());
        }
        for (const char *s : S) for (int v : {0, 1, 2, 255, 9})
        {
          MS3TraceID *g = mstl3_findID (L.l, s, v, NULL); bool a = false; for (auto &p : m) if (p.first.first == s) a = true;
          if (v ? g != (m.count ({s, v}) ? m[{s, v}] : NULL) : (g != NULL) != a || (g && strcmp (g->sid, s))) fail ("search for %s v%d gave %s", s, v, g ? "another entry" : "nothing");
        }
      }
      Hash h; for (auto &p : m) h.s (p.first.first).i (p.first.second).i (p.second->height); c.state (h);
    }
    mk.done ("identifiers");
  }, fmt ("all sequences of %d identifiers of 4 (one a prefix, one empty) and versions 0, 1, 2, 255 added by the caller with and without a place found before, 4 sequences of heights; every level's order and every search after each", thorough ? 5 : 4)});

  // ---- records without samples in memory, other types, rate zero
  cfg.scenarios.push_back ({"kinds", [=] (Ctx &c) {
    MemCheck mk;
    {
      bool heal = c.flip (); int n = thorough ? 4 : 3; AutoList L (true); std::vector<R> sofar; nstime_t at = T0; std::vector<IdView> v; std::vector<R> rs;
      for (int i = 0; i < n; i++)
      {
        R r; r.sid = SID; r.key = i + 1; r.n = 2; r.type = c.one<char> ({'i', 'f', 'd', 't'}); r.data = false;
        r.rate = c.one<double> ({1.0, 0.0}); r.start = at; at = r.end () + (r.period () ? r.period () : NS1); rs.push_back (r);
      }
      for (int i : permutation (c, n))
      {
        if (!add (L.l, rs[i], false, heal, true, DEF)) fail ("record without decoded samples not added");
        c.step (); sofar.push_back (rs[i]);
        v = inspect (L.l, sofar, false, true); check_joins (v, sofar, DEF); c.nontriv ();
      }
      c.state (Hash ().u (digest (v)).u (heal));
    }
    mk.done ("trace list");
  }, "records whose samples were not decoded, all types, rates 1 and 0, all orders"});
  cfg.scenarios.push_back ({"types", [=] (Ctx &c) {
    MemCheck mk;
    {
      // samples of another type cannot be joined: the record is refused and the list keeps what it has
      bool heal = c.flip (), rl = c.flip (); int n = thorough ? 4 : 3; AutoList L (rl); std::vector<R> sofar, rs; nstime_t at = T0; std::vector<IdView> v;
      for (int i = 0; i < n; i++) { R r; r.sid = SID; r.key = i + 1; r.n = 2; r.type = c.one<char> ({'i', 'f', 'd'}); r.start = at; at = r.end () + r.period (); rs.push_back (r); }
      for (int i : permutation (c, n))
      {
        auto had = sofar.size () ? inspect (L.l, sofar, false, rl) : std::vector<IdView> ();
        bool ok = add (L.l, rs[i], false, heal, rl, DEF); c.step ();
        if (ok) sofar.push_back (rs[i]);
        v = inspect (L.l, sofar, false, rl); check_joins (v, sofar, DEF);
        std::map<int, char> ty; for (auto &r : rs) ty[r.key] = r.type;
        for (auto &x : v) for (auto &s : x.segs) for (int k : s.keys) if (ty[k] != ty[s.keys[0]]) fail ("samples of different types in one segment");
        if (ok) for (auto &x : v) for (auto &a : x.segs) for (auto &b : x.segs) if (heal && &a != &b && b.start - a.end == NS1 && ty[a.keys[0]] == ty[b.keys[0]]) fail ("segments of one type that abut were not joined");
        bool possible = true; // refusal is only for a neighbour of another type
        if (!ok) { possible = false; for (auto &r : sofar) if ((r.key == rs[i].key + 1 || r.key == rs[i].key - 1) && r.type != rs[i].type) possible = true; if (digest (had) != digest (v)) fail ("a refused record changed the list"); }
        if (!possible) fail ("record refused without reason");
        c.nontriv ();
      }
      c.state (Hash ().u (digest (v)).u (heal));
    }
    mk.done ("trace list");
  }, "adjacent records of integers, floats and doubles in all orders"});

  // ---- across leap seconds, extreme times
  cfg.scenarios.push_back ({"leap", [=] (Ctx &c) {
    MemCheck mk;
    {
      // 20:00..: three records of 40 samples at 1 Hz around 2016-12-31T23:59:60, sampled continuously in TAI
      nstime_t leap = (nstime_t)epoch_md (2017, 1, 1, 0, 0, 0, 0); List L; int off = c.pick (60);
      nstime_t s = leap - off * NS1 - NS1 / 2; int64_t done = 0; struct { nstime_t s; } t[3];
      for (int i = 0; i < 3; i++) { t[i].s = ms_sampletime (s, i * 40, 1.0); }
      // the leap second inside a record; records that meet exactly there have no continuous time stamps
      for (int i = 1; i < 3; i++) if (t[i].s - ms_sampletime (s, i * 40 - 1, 1.0) != NS1 || ms_sampletime (t[i].s, 39, 1.0) != ms_sampletime (s, i * 40 + 39, 1.0)) throw PruneEx ();
      for (int i : permutation (c, 3))
      {
        MS3Record *m = msr3_init (NULL); strcpy (m->sid, SID); m->samprate = 1; m->starttime = t[i].s; std::vector<int32_t> d (40, i); m->datasamples = d.data (); m->numsamples = m->samplecnt = 40; m->sampletype = 'i';
        MS3TraceSeg *seg = mstl3_addmsr (L.l, m, 0, 1, 0, NULL); m->datasamples = NULL; msr3_free (&m);
        if (!seg) fail ("record not added");
        done += 40; c.step ();
      }
      MS3TraceID *id = L.l->traces.next[0];
      if (id->numsegments != 1 || id->first->samplecnt != 120 || id->first->starttime != s || id->first->endtime != ms_sampletime (s, 119, 1.0)) fail ("%u segments for a continuous span over a leap second", id->numsegments);
      for (int i = 0; i < 120; i++) if (((int32_t *)id->first->datasamples)[i] != i / 40) fail ("sample %d", i);
      c.nontriv (); c.state (Hash ().u (off));
    }
    mk.done ("trace list");
  }, "three continuous records around a leap second at every one-second phase inside a record, all orders; sample times as established by P17"});
  return run (argc, argv, cfg);
}
