// Trace lists: records whose samples identify them, and the structural check of a list against what was added.
#pragma once
#include "ref.hpp"
namespace tl {
using namespace mc; using namespace ref;

struct R // one record of a history; sample i has the value 1000 * key + i
{
  int key = 0; bytes sid; int ver = 1; nstime_t start = 0; double rate = 1; int n = 1; char type = 'i'; bool data = true;
  nstime_t end () const;
  double hz () const { return rate >= 0 ? rate : -1.0 / rate; }
  nstime_t period () const { double h = hz (); return h > 0 ? (nstime_t) (1e9 / h + 0.5) : 0; }
  bytes samples () const
  {
    bytes b;
    for (int i = 0; i < n; i++)
      switch (type)
      {
      case 'i': { int32_t v = key * 1000 + i; b.append ((char *)&v, 4); break; }
      case 'f': { float v = key * 1000 + i; b.append ((char *)&v, 4); break; }
      case 'd': { double v = key * 1000 + i; b.append ((char *)&v, 8); break; }
      default: b += (char)('A' + (key * 7 + i) % 26);
      }
    return b;
  }
};
inline nstime_t R::end () const // time of the last sample, no leap seconds in between
{
  if (n <= 1 || hz () == 0) return start;
  long double d = (rate > 0) ? (long double)(n - 1) * 1000000000.0L / rate : (long double)(n - 1) * 1000000000.0L * -rate;
  return start + (nstime_t) (d + 0.5L);
}
struct Msr // the MS3Record of an R
{
  MS3Record *m; bytes s;
  Msr (const R &r) : s (r.samples ())
  {
    NoFail nf; m = msr3_init (NULL);
    strcpy (m->sid, r.sid.c_str ()); m->starttime = r.start; m->samprate = r.rate; m->pubversion = r.ver; m->samplecnt = r.n; m->sampletype = r.type; m->encoding = r.type == 'i' ? 3 : r.type == 'f' ? 4 : r.type == 'd' ? 5 : 0;
    m->reclen = 512; m->formatversion = 3;
    if (r.data && r.n) { m->datasamples = (void *)s.data (); m->numsamples = r.n; }
  }
  ~Msr () { m->datasamples = NULL; m->extra = NULL; msr3_free (&m); }
};
struct List
{
  MS3TraceList *l = NULL;
  List () : l (mstl3_init (NULL)) { if (!l) fail ("mstl3_init failed"); }
  ~List () { if (l) mstl3_free (&l, 1); }
};
inline double sample_at (const MS3TraceSeg *s, int64_t i)
{
  switch (s->sampletype) { case 'i': return ((int32_t *)s->datasamples)[i]; case 'f': return ((float *)s->datasamples)[i]; case 'd': return ((double *)s->datasamples)[i]; }
  return -1;
}
struct SegView { nstime_t start, end; double rate; int64_t count; std::vector<int> keys; };
struct IdView { bytes sid; int ver; std::vector<SegView> segs; };

// Check the links, order and totals of a list and that its segments are made of whole records; returns its content.
inline std::vector<IdView> inspect (MS3TraceList *l, const std::vector<R> &added, bool split, bool reclists = false)
{
  std::vector<IdView> out; std::set<int> seen; std::map<int, const R *> by;
  for (auto &r : added) by[r.key] = &r;
  uint32_t nid = 0; MS3TraceID *prev = NULL;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0], nid++)
  {
    if (nid > added.size ()) fail ("more identifiers than records");
    if (prev) { int cmp = strcmp (prev->sid, id->sid); if (cmp > 0 || (cmp == 0 && (!split || prev->pubversion >= id->pubversion))) fail ("identifiers not in order: %s v%d before %s v%d", prev->sid, prev->pubversion, id->sid, id->pubversion); }
    prev = id;
    IdView v; v.sid = id->sid; v.ver = id->pubversion;
    uint32_t nseg = 0; MS3TraceSeg *ps = NULL; nstime_t lo = INT64_MAX, hi = INT64_MIN; int maxver = 0;
    for (MS3TraceSeg *s = id->first; s; ps = s, s = s->next, nseg++)
    {
      if (nseg > added.size ()) fail ("more segments than records");
      if (s->prev != ps) fail ("previous pointer of a segment");
      if (ps && (ps->starttime > s->starttime || (ps->starttime == s->starttime && ps->endtime < s->endtime))) fail ("segments of %s not in order", id->sid);
      SegView w; w.start = s->starttime; w.end = s->endtime; w.rate = s->samprate; w.count = s->samplecnt;
      int64_t i = 0, cnt = 0; MS3RecordPtr *rp = s->recordlist ? s->recordlist->first : NULL; uint64_t nrp = 0;
      if (reclists && !rp) fail ("segment without record list");
      bool data = s->numsamples > 0;
      if (!data && !reclists) fail ("segment without samples");
      while (data ? i < s->numsamples : rp != NULL)
      {
        int key;
        if (data)
        {
          double x = sample_at (s, i); key = (int)(x / 1000);
          auto it = by.find (key); if (it == by.end ()) fail ("sample %g of %s belongs to no record", x, id->sid);
          const R &r = *it->second;
          if (i + r.n > s->numsamples) fail ("samples of record %d incomplete", key);
          for (int k = 0; k < r.n; k++) if (sample_at (s, i + k) != key * 1000 + k) fail ("samples of record %d not intact: %g at %d", key, sample_at (s, i + k), k);
          i += r.n;
        }
        else key = (int)(intptr_t)rp->prvtptr;
        auto it = by.find (key); if (it == by.end ()) fail ("record %d unknown", key);
        const R &r = *it->second;
        if (seen.count (key)) fail ("record %d appears twice", key);
        seen.insert (key);
        if (r.sid != id->sid || (split && r.ver != id->pubversion)) fail ("record of %s v%d attributed to %s v%d", r.sid.c_str (), r.ver, id->sid, id->pubversion);
        if (reclists)
        {
          if (!rp) fail ("record list shorter than the samples");
          if ((intptr_t)rp->prvtptr != key) fail ("record list names record %d, samples are of record %d", (int)(intptr_t)rp->prvtptr, key);
          if (!rp->msr || rp->msr->starttime != r.start || rp->msr->samplecnt != r.n || rp->endtime != r.end () || bytes (rp->msr->sid) != r.sid) fail ("record list entry of record %d", key);
          if (rp->msr->datasamples) fail ("record list entry holds samples");
          nrp++;
          if (!rp->next && s->recordlist->last != rp) fail ("last pointer of a record list");
          rp = rp->next;
        }
        w.keys.push_back (key); cnt += r.n; maxver = std::max (maxver, r.ver); lo = std::min (lo, r.start); hi = std::max (hi, r.end ());
      }
      if (reclists && (rp || nrp != s->recordlist->recordcnt)) fail ("record count of a record list");
      if (s->samplecnt != cnt) fail ("segment of %s holds %lld samples, its records %lld", id->sid, (long long)s->samplecnt, (long long)cnt);
      const R &f = *by[w.keys.front ()], &e = *by[w.keys.back ()];
      if (s->starttime != f.start) fail ("segment of %s starts at %lld, its first record at %lld", id->sid, (long long)s->starttime, (long long)f.start);
      if (s->endtime != e.end ()) fail ("segment of %s ends at %lld, its last record at %lld", id->sid, (long long)s->endtime, (long long)e.end ());
      v.segs.push_back (w);
    }
    if (id->last != ps || id->numsegments != nseg) fail ("last segment or segment count of %s", id->sid);
    if (id->earliest != lo || id->latest != hi) fail ("%s: earliest %lld latest %lld, records %lld to %lld", id->sid, (long long)id->earliest, (long long)id->latest, (long long)lo, (long long)hi);
    if (id->pubversion != maxver) fail ("%s: version %d, largest of its records %d", id->sid, id->pubversion, maxver);
    if (mstl3_findID (l, id->sid, 0, NULL) == NULL || (split && id->pubversion && mstl3_findID (l, id->sid, id->pubversion, NULL) != id) || (!split && mstl3_findID (l, id->sid, 0, NULL) != id)) fail ("%s v%d not found", id->sid, id->pubversion);
    out.push_back (v);
  }
  if (nid != l->numtraceids) fail ("%u identifiers counted, %u in the list", l->numtraceids, nid);
  if (seen.size () != added.size ()) fail ("%zu of %zu records in the list", seen.size (), added.size ());
  // every level of the skip list is the same order thinned out
  for (int lev = 1; lev < MSTRACEID_SKIPLIST_HEIGHT; lev++)
  {
    MS3TraceID *b = l->traces.next[0];
    for (MS3TraceID *id = l->traces.next[lev]; id; id = id->next[lev]) { while (b && b != id) b = b->next[0]; if (!b) fail ("level %d of the skip list", lev); if (id->height <= lev) fail ("entry at level %d of height %d", lev, id->height); }
  }
  return out;
}
inline uint64_t digest (const std::vector<IdView> &v)
{
  Hash h;
  for (auto &i : v) { h.s (i.sid).u (i.ver); for (auto &s : i.segs) { h.u (s.keys.size ()); for (int k : s.keys) h.u (k); } }
  return h.h;
}
} // namespace tl
