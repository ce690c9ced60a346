// Deep dumps of records, lists and selections, record forms and scratch directories for the whole-library histories.
#pragma once
#include "tl.hpp"
#include <fcntl.h>
#include <functional>
#include <memory>
#include <sys/stat.h>
namespace world {
using namespace mc; using namespace ref; using namespace tl;
static const nstime_t T0 = 1577836800LL * NS1;
static const char *SID = "FDSN:XX_STA_00_H_H_Z";
inline int lowfd () { int f = open ("/dev/null", O_RDONLY); close (f); return f; }
inline void spill (const bytes &p, const bytes &v) { FILE *f = fopen (p.c_str (), "wb"); if (!f) fail ("scratch file"); fwrite (v.data (), 1, v.size (), f); fclose (f); }
inline bytes slurp (const bytes &p) { bytes r; char b[65536]; size_t n; FILE *f = fopen (p.c_str (), "rb"); if (!f) return "<absent>"; while ((n = fread (b, 1, sizeof b, f)) > 0) r.append (b, n); fclose (f); return r; }
struct Dir { char d[64]; std::set<bytes> names; Dir () { strcpy (d, "/tmp/mcw-XXXXXX"); if (!mkdtemp (d)) fail ("scratch directory"); } bytes at (const char *n) { names.insert (n); return bytes (d) + "/" + n; } ~Dir () { for (auto &n : names) unlink ((bytes (d) + "/" + n).c_str ()); rmdir (d); } };

// ---------------------------------------------------------------- what can be observed
inline bytes dump (const MS3Record *m)
{
  if (!m) return "-";
  bytes b = msr_str (m);
  if (m->extralength) { if (!m->extra) fail ("extra headers of stated length %d are missing", m->extralength); b += "|" + bytes (m->extra, m->extralength); }
  if (m->numsamples) { if (!m->datasamples) fail ("%lld stated samples are missing", (long long)m->numsamples); b += "|" + bytes ((char *)m->datasamples, (size_t)m->numsamples * ms_samplesize (m->sampletype)); }
  return b;
}
inline bytes dump (const MS3TraceList *l)
{
  if (!l) return "-";
  bytes b = fmt ("%u:", l->numtraceids); uint32_t n = 0;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0], n++)
  {
    b += fmt ("%s v%d %lld %lld %u:", id->sid, id->pubversion, (long long)id->earliest, (long long)id->latest, id->numsegments); uint32_t ns = 0;
    const MS3TraceSeg *prev = NULL;
    for (MS3TraceSeg *s = id->first; s; prev = s, s = s->next, ns++)
    {
      if (s->prev != prev) fail ("previous pointer of a segment");
      b += fmt ("[%lld %lld %g %lld %lld %c|", (long long)s->starttime, (long long)s->endtime, s->samprate, (long long)s->samplecnt, (long long)s->numsamples, s->sampletype ? s->sampletype : '-');
      if (s->numsamples) { if (!s->datasamples) fail ("samples of a segment are missing"); b += bytes ((char *)s->datasamples, (size_t)s->numsamples * ms_samplesize (s->sampletype)); }
      if (s->recordlist)
      {
        uint64_t k = 0; MS3RecordPtr *last = NULL;
        for (MS3RecordPtr *p = s->recordlist->first; p; last = p, p = p->next, k++) b += fmt ("{%lld %lld %u ", (long long)p->fileoffset, (long long)p->endtime, p->dataoffset) + dump (p->msr) + "}";
        if (k != s->recordlist->recordcnt || last != s->recordlist->last) fail ("record list of a segment");
      }
      b += "]";
    }
    if (ns != id->numsegments || id->last != prev) fail ("segment count of %s", id->sid);
  }
  if (n != l->numtraceids) fail ("identifier count");
  for (int lev = 1; lev < MSTRACEID_SKIPLIST_HEIGHT; lev++) { MS3TraceID *x = l->traces.next[0]; for (MS3TraceID *id = l->traces.next[lev]; id; id = id->next[lev]) { while (x && x != id) x = x->next[0]; if (!x) fail ("level %d of the skip list", lev); } }
  return b;
}
inline bytes dump (const MS3Selections *s)
{
  bytes b;
  for (; s; s = s->next) { b += fmt ("<%s v%d", s->sidpattern, s->pubversion); for (const MS3SelectTime *t = s->timewindows; t; t = t->next) b += fmt (" %lld..%lld", (long long)t->starttime, (long long)t->endtime); b += ">"; }
  return b;
}

// ---------------------------------------------------------------- inputs
enum { F3I, F3ST, F3F, F3T, F3X, F2BE, F2LE, F2BLK, F2ST, NFORM };
inline bytes form (int f, const R &r, bool extra = true)
{
  std::vector<double> v; std::vector<int32_t> iv; for (int i = 0; i < r.n; i++) { v.push_back (r.key * 1000 + i); iv.push_back (r.key * 1000 + i); }
  if (f <= F3X)
  {
    Rec3 x; x.sid = r.sid; x.settime (r.start); x.numsamples = r.n; x.pubver = r.ver; x.encoding = f == F3ST ? 11 : f == F3F ? 4 : f == F3T ? 0 : 3;
    if (extra && f != F3I) x.extra = "{\"FDSN\":{\"Time\":{\"Quality\":100}},\"x\":[1,\"two\"]}";
    x.data = f == F3ST ? steim_encode (2, iv, true) : f == F3T ? bytes (r.n, 'x') : enc_plain (x.encoding, v, false);
    return x.build ();
  }
  Rec2 x; bool le = f == F2LE; x.big = !le; x.settime (r.start); x.numsamples = r.n; x.reclen = 512; x.sta = "STA"; x.loc = "00"; x.chan = "HHZ"; x.net = "XX"; x.quality = r.ver == 1 ? 'R' : r.ver == 2 ? 'D' : 'Q';
  int e = f == F2ST ? 10 : 3;
  if (f == F2BLK) x.reclen = 1024; x.blks.push_back (x.b1000 (e, !le, f == F2BLK ? 10 : 9));
  if (extra && f == F2BLK) { x.act = 0x41; x.dq = 3; x.io = 0x25; for (int t : {1001, 201, 300, 395, 500}) x.blks.push_back (blk_sample (t, true)); }
  x.data = e == 3 ? enc_plain (3, v, !le) : steim_encode (1, iv, true);
  return x.build ();
}
inline char form_type (int f) { return f == F3F ? 'f' : f == F3T ? 't' : 'i'; }
inline R rec (int key, int n, int64_t at, int ver = 2) { R r; r.key = key; r.sid = SID; r.n = n; r.start = T0 + at * NS1; r.ver = ver; return r; }

} // namespace world
