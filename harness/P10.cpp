// P10: deferred decoding through record lists equals immediate decoding.
#include "tl.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace tl;

static const nstime_t T0 = 1700000000000000000LL;
struct AutoList : List { ~AutoList () { if (l) mstl3_free (&l, 0); l = NULL; } }; // private pointers are keys here
static int lowfd () { int f = open ("/dev/null", O_RDONLY); close (f); return f; }

// ---------------------------------------------------------------- records in a stream
enum { I16, I32, F32, F64, ST1, ST2, TXT, V2ST1, V2I32LE, V2F32, V2ST2LE, NFORMS };
static char form_type (int f) { return f == F32 || f == V2F32 ? 'f' : f == F64 ? 'd' : f == TXT ? 't' : 'i'; }
static bytes record (const R &r, int form)
{
  std::vector<double> v; std::vector<int32_t> iv;
  for (int i = 0; i < r.n; i++) { v.push_back (r.type == 't' ? 'A' + (r.key * 7 + i) % 26 : r.key * 1000 + i); iv.push_back (r.key * 1000 + i); }
  if (form < V2ST1)
  {
    Rec3 x; x.sid = r.sid; x.settime (r.start); x.samprate = r.rate; x.numsamples = r.n; x.pubver = r.ver;
    static const int E[] = {1, 3, 4, 5, 10, 11, 0}; x.encoding = E[form];
    if (r.key % 2) x.extra = "{\"k\":1}";
    if (r.n == 0) x.encoding = 0;
    else x.data = form == ST1 || form == ST2 ? steim_encode (form - ST1 + 1, iv, true) : enc_plain (E[form], v, false);
    return x.build ();
  }
  Rec2 x; bool le = form == V2I32LE || form == V2ST2LE; x.big = !le; x.settime (r.start); x.numsamples = r.n; x.factor = (int)r.rate; x.mult = 1; x.reclen = 256; x.quality = r.ver == 1 ? 'R' : r.ver == 2 ? 'D' : 'Q';
  x.sta = "STA"; x.loc = "00"; x.chan = "HHZ"; x.net = "XX";
  int e = form == V2ST1 ? 10 : form == V2I32LE ? 3 : form == V2F32 ? 4 : 11;
  x.blks.push_back (x.b1000 (e, !le, 8));
  if (r.n) x.data = e >= 10 ? steim_encode (e - 9, iv, !le) : enc_plain (e, v, !le);
  bytes b = x.build (); b.resize (256, 0);
  return b;
}
struct Stream { bytes b; std::vector<R> rs; std::vector<size_t> off, len; void add (const R &r, int form) { bytes x = record (r, form); rs.push_back (r); off.push_back (b.size ()); len.push_back (x.size ()); b += x; } };

struct Dir { char d[64]; Dir () { strcpy (d, "/tmp/p10-XXXXXX"); if (!mkdtemp (d)) fail ("scratch directory"); } bytes at (const char *n) const { return bytes (d) + "/" + n; } ~Dir () { unlink (at ("in").c_str ()); unlink (at ("in2").c_str ()); rmdir (d); } };
static void spill (const bytes &p, const bytes &v) { FILE *f = fopen (p.c_str (), "wb"); if (!f) fail ("scratch file"); fwrite (v.data (), 1, v.size (), f); fclose (f); }

// ---------------------------------------------------------------- sources
enum { BUFFER, NAMED, RANGED, OPENFILE, NSRC };
struct Source
{
  int kind; const Stream &s; Buf buf; Dir dir; bytes path; FILE *fp = NULL; int64_t base = 0;
  Source (int k, const Stream &st, int64_t far = -1) : kind (k), s (st), buf (st.b)
  {
    if (k == BUFFER) return;
    bytes junk = k == RANGED ? bytes (777, '?') : "";
    base = junk.size (); path = dir.at ("in"); spill (path, junk + st.b);
    if (far >= 0) // the same bytes far into a file with a hole
    {
      if (kind == NAMED) kind = RANGED;
      int fd = open (path.c_str (), O_RDWR | O_CREAT | O_TRUNC, 0600); base = far; if (fd < 0) fail ("scratch file"); bool ok = pwrite (fd, st.b.data (), st.b.size (), base) == (ssize_t)st.b.size (); close (fd); if (!ok) throw PruneEx (); /* no files that large here */ k = kind;
    }
    if (k == RANGED) path += fmt ("@%lld-", (long long)base);
    if (k == OPENFILE) fp = fopen (path.c_str (), "rb");
  }
  ~Source () { if (fp) fclose (fp); }
  // read into a list; returns the return code of the reader, 0 on success
  int64_t read (MS3TraceList **l, uint32_t flags, bool split, const MS3Selections *sel = NULL)
  {
    if (kind == BUFFER) { int64_t rc = mstl3_readbuffer_selection (l, buf.p, buf.n, split, flags, NULL, sel, 0); if (rc < 0) return rc;
      int64_t want = 0; for (auto &r : s.rs) want += !sel || ms3_matchselect (sel, r.sid.c_str (), r.start, r.n ? r.end () : r.start, r.ver, NULL) != NULL;
      if (rc != want) fail ("%lld records counted of the %lld read into the list", (long long)rc, (long long)want); return 0; }
    if (kind == NAMED) return sel ? ms3_readtracelist_selection (l, path.c_str (), NULL, sel, split, flags, 0) : ms3_readtracelist (l, path.c_str (), NULL, split, flags, 0);
    if (kind == RANGED) return sel ? ms3_readtracelist_selection (l, path.c_str (), NULL, sel, split, flags | MSF_PNAMERANGE, 0) : ms3_readtracelist (l, path.c_str (), NULL, split, flags | MSF_PNAMERANGE, 0);
    // a caller that reads records and keeps the file open
    MS3Record *m = NULL; if (!*l && !(*l = mstl3_init (NULL))) return -1;
    int64_t rc = 0;
    for (size_t i = 0; i < s.rs.size (); i++)
    {
      MS3RecordPtr *rp = NULL; uint32_t doff, dsize;
      if ((rc = msr3_parse (s.b.data () + s.off[i], s.len[i], &m, flags & MSF_UNPACKDATA, 0))) break;
      if (sel && !ms3_matchselect (sel, m->sid, m->starttime, msr3_endtime (m), m->pubversion, NULL)) continue;
      if (!mstl3_addmsr_recordptr (*l, m, flags & MSF_RECORDLIST ? &rp : NULL, split, 1, flags, NULL)) { rc = -1; break; }
      if (rp) { if ((rc = msr3_data_bounds (m, &doff, &dsize))) break; rp->fileptr = fp; rp->fileoffset = base + s.off[i]; rp->dataoffset = doff; }
    }
    msr3_free (&m);
    return rc;
  }
  // which record a record list entry locates
  int key (const MS3RecordPtr *p) const
  {
    int64_t off = -1;
    if (kind == BUFFER) { if (!p->bufferptr || p->fileptr || p->filename) fail ("a record in memory is not located there"); off = p->bufferptr - buf.p; }
    else if (kind == OPENFILE) { if (p->fileptr != fp || p->bufferptr) fail ("open file"); off = p->fileoffset - base; }
    else { if (!p->filename || p->bufferptr || p->fileptr || (kind == NAMED && path != p->filename)) fail ("a record in a file is not located there"); off = p->fileoffset - base; }
    for (size_t i = 0; i < s.off.size (); i++) if ((int64_t)s.off[i] == off)
    {
      uint32_t doff, dsize; MS3Record *m = NULL;
      if (msr3_parse (s.b.data () + s.off[i], s.len[i], &m, 0, 0) == 0) { msr3_data_bounds (m, &doff, &dsize); msr3_free (&m); if (p->dataoffset != doff) fail ("data offset %u of record %d, expected %u", p->dataoffset, s.rs[i].key, doff); }
      return s.rs[i].key;
    }
    fail ("record list entry at offset %lld where no record starts", (long long)off);
    return 0;
  }
};
static bytes seg_samples (const MS3TraceSeg *s) { return s->datasamples ? bytes ((char *)s->datasamples, (size_t)s->numsamples * ms_samplesize (s->sampletype)) : bytes (); }
static bytes seg_head (const MS3TraceSeg *s) { return mc::fmt ("%lld %lld %.17g %lld %p", (long long)s->starttime, (long long)s->endtime, s->samprate, (long long)s->samplecnt, (void *)s->recordlist); }

int main (int argc, char **argv)
{
  setup ();
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P10";
  cfg.rule = "every stream, source, arrival order, destination and damage of the stated grids; both ways of decoding are run on each and compared";
  cfg.assumptions = {"that immediate decoding is right is P03; that lists have the right segments is P09"};
  const char *SID = "FDSN:XX_STA_00_H_H_Z";

  auto name_records = [] (MS3TraceList *l, const Source &src) {
    for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *s = id->first; s; s = s->next)
      for (MS3RecordPtr *p = s->recordlist ? s->recordlist->first : NULL; p; p = p->next) { if (p->prvtptr) fail ("private pointer set by the library"); p->prvtptr = (void *)(intptr_t)src.key (p); }
  };
  // decode every segment of L (deferred) in the way chosen and compare with I (immediate)
  auto compare = [] (Ctx &c, MS3TraceList *L, MS3TraceList *I, int out) {
    MS3TraceID *a = L->traces.next[0], *b = I->traces.next[0];
    for (; a && b; a = a->next[0], b = b->next[0])
    {
      MS3TraceSeg *s = a->first, *t = b->first;
      for (; s && t; s = s->next, t = t->next)
      {
        if (s->numsamples || s->datasamples) fail ("samples present before deferred decoding");
        bytes want = seg_samples (t), head = seg_head (s);
        if (out == 0) // the library allocates
        {
          int64_t rc = mstl3_unpack_recordlist (a, s, NULL, 0, 0); c.step ();
          if (rc != t->numsamples) fail ("%lld samples decoded later, %lld immediately", (long long)rc, (long long)t->numsamples);
          if (s->numsamples != t->numsamples || seg_samples (s) != want || (rc > 0 && s->sampletype != t->sampletype)) fail ("samples decoded later differ");
          if (s->datasize < want.size ()) fail ("buffer size %zu for %zu bytes", (size_t)s->datasize, want.size ());
          if (rc > 0 && mstl3_unpack_recordlist (a, s, NULL, 0, 0) != -1) fail ("decoding into a segment that holds samples was not refused");
          if (seg_samples (s) != want) fail ("samples changed by a refused call");
        }
        else // the caller supplies space: exact, more, and all smaller sizes
        {
          size_t n = want.size (), room = out == 1 ? n : n + 37;
          Buf o (bytes (room, '\xee'));
          int64_t rc = mstl3_unpack_recordlist (a, s, o.p, room, 0); c.step ();
          if (rc != t->numsamples || bytes (o.p, n) != want || bytes (o.p + n, room - n) != bytes (room - n, '\xee')) fail ("%lld samples decoded into the space of the caller, %lld immediately", (long long)rc, (long long)t->numsamples);
          if (s->datasamples || s->numsamples) fail ("segment holds samples that were decoded elsewhere");
          if (rc > 0 && s->sampletype != t->sampletype) fail ("sample type '%c' stated for samples of type '%c'", s->sampletype, t->sampletype);
          if (out == 1) for (size_t k = 0; k < n; k = k < 6 || k + 6 >= n ? k + 1 : n - 6)
          {
            Buf q (bytes (k, '\xee'));
            if (mstl3_unpack_recordlist (a, s, q.p, k, 0) != -1) fail ("%zu bytes accepted for %zu bytes of samples", k, n);
            if (!q.same () || s->datasamples) fail ("a refused call wrote something");
            c.step ();
          }
        }
        if (seg_head (s) != head) fail ("segment changed by decoding");
        if (t->numsamples) c.nontriv ();
      }
      if (s || t) fail ("number of segments differs");
    }
    if (a || b) fail ("number of identifiers differs");
  };

  // ---- every form from every source
  cfg.scenarios.push_back ({"forms", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      Stream st; int src = c.pick (NSRC), out = c.pick (3), n = thorough ? 4 : 3; bool split = c.flip (); nstime_t at = T0;
      if (!thorough && src != BUFFER && out) throw PruneEx ();
      int form0 = c.pick (NFORMS);
      for (int i = 0; i < n; i++)
      {
        // records of one sample type in different encodings and versions, empty ones between
        int form = i == 0 ? form0 : c.pick (NFORMS);
        if (i && form_type (form) != form_type (form0)) throw PruneEx ();
        R r; r.key = i + 1; r.sid = SID; r.type = form_type (form); r.n = 3 + i; r.start = at; r.ver = split && i == 1 ? 2 : 1;
        if ((thorough || i < 2) && c.pick (2)) r.n = i == 0 ? 50 : 0;
        at = r.end () + NS1;
        if (form >= V2ST1 && r.n == 50) r.n = 40; at = r.end () + NS1;
        st.add (r, form);
      }
      Source s (src, st); AutoList D, I;
      if (s.read (&D.l, MSF_RECORDLIST, split)) fail ("reading failed");
      if (s.read (&I.l, MSF_UNPACKDATA, split)) fail ("reading failed");
      c.step (2); name_records (D.l, s);
      bool whole = true; for (auto &r : st.rs) if (r.n == 0) whole = false;
      if (whole) inspect (D.l, st.rs, split, true);
      compare (c, D.l, I.l, out);
      if (whole && out == 0 && form_type (form0) != 't') inspect (D.l, st.rs, split, true);
      c.state (Hash ().s (st.b).u (src).u (out));
      // list and immediate samples together
      AutoList B; if (s.read (&B.l, MSF_RECORDLIST | MSF_UNPACKDATA, split)) fail ("reading failed");
      name_records (B.l, s); if (whole && form_type (form0) != 't') inspect (B.l, st.rs, split, true);
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, fmt ("%d records in all combinations of the 11 forms (both versions, both byte orders, all encodings) with a common sample type, empty records among them; four kinds of sources; space allocated by the library, exact and larger space of the caller and every smaller one", thorough ? 4 : 3)});

  // ---- records of many lengths
  cfg.scenarios.push_back ({"lengths", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      static const int N[] = {1, 1000, 1100, 5000, 40000};
      Stream st; int src = c.pick (NSRC), out = c.pick (3), form = c.one<int> ({I32, I16}); nstime_t at = T0; bool rev = c.flip (); std::vector<R> rs;
      for (int i = 0; i < 3; i++) { R r; r.key = i + 1; r.sid = SID; r.n = N[c.pick (5)]; r.start = at; r.ver = 1; at = r.end () + NS1; rs.push_back (r); }
      if (rev) std::reverse (rs.begin (), rs.end ());
      for (auto &r : rs) st.add (r, form);
      Source s (src, st); AutoList D, I;
      if (s.read (&D.l, MSF_RECORDLIST, false) || s.read (&I.l, MSF_UNPACKDATA, false)) fail ("reading failed");
      c.step (2); name_records (D.l, s); compare (c, D.l, I.l, out);
      c.state (Hash ().s (st.b).u (src).u (out));
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, "three records of 1 to 40000 samples in all combinations of 5 lengths, two encodings, both orders; four kinds of sources and three destinations"});

  // ---- arrival orders, gaps, identifiers
  cfg.scenarios.push_back ({"orders", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      int n = thorough ? 6 : 5; int src = c.pick (NSRC), gap = c.pick (n), other = c.pick (n), rest = c.pick (2); bool split = c.flip ();
      std::vector<R> rs; nstime_t at = T0;
      for (int i = 0; i < n; i++) { if (gap && i == gap) at += 20 * NS1; R r; r.key = i + 1; r.sid = other && i == other ? "FDSN:XX_OTH__H_H_Z" : SID; r.n = 1 + i; r.start = at; r.ver = rest && i == 1 ? 3 : 1; at = r.end () + NS1; rs.push_back (r); }
      Stream st; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back (i);
      while (left.size ()) { int k = left.size () > 1 ? c.pick (left.size ()) : 0; st.add (rs[left[k]], (left[k] * 3) % 2 ? ST2 : I32); left.erase (left.begin () + k); }
      Source s (src, st); AutoList D, I;
      if (s.read (&D.l, MSF_RECORDLIST, split) || s.read (&I.l, MSF_UNPACKDATA, split)) fail ("reading failed");
      c.step (2); name_records (D.l, s); inspect (D.l, st.rs, split, true); compare (c, D.l, I.l, 0); inspect (D.l, st.rs, split, true);
      Hash h; for (auto &r : st.rs) h.u (r.key); c.state (h.u (src).u (gap * 8 + other));
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, fmt ("%d records in all arrival orders, with a gap, another identifier or another version at any position, from four kinds of sources", thorough ? 6 : 5)});

  // ---- selections
  cfg.scenarios.push_back ({"selections", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      Stream st; nstime_t at = T0; int src = c.pick (NSRC);
      for (int i = 0; i < 6; i++) { R r; r.key = i + 1; r.sid = i % 3 == 2 ? "FDSN:XX_OTH__H_H_Z" : SID; r.n = 10; r.ver = 1 + i % 2; r.start = at; if (i % 3 != 2) at = r.end () + NS1; st.add (r, i % 2 ? ST1 : I32); }
      const char *pat = c.one<const char *> ({"*", "FDSN:XX_STA*", "FDSN:XX_OTH*", "nothing"}); nstime_t a = c.one<int64_t> ({-1, 0, 10, 15}), b = c.one<int64_t> ({-1, 5, 19, 30}); int ver = c.pick (3);
      MS3Selections *sel = NULL; if (ms3_addselect (&sel, pat, a < 0 ? NSTUNSET : T0 + a * NS1, b < 0 ? NSTUNSET : T0 + b * NS1, ver)) fail ("ms3_addselect failed");
      std::vector<R> want; for (auto &r : st.rs) if (ms3_matchselect (sel, r.sid.c_str (), r.start, r.end (), r.ver, NULL)) want.push_back (r);
      {
        Source s (src, st); AutoList D, I;
        if (s.read (&D.l, MSF_RECORDLIST, false, sel) || s.read (&I.l, MSF_UNPACKDATA, false, sel)) fail ("reading failed");
        c.step (2); name_records (D.l, s); inspect (D.l, want, false, true); inspect (I.l, want, false); compare (c, D.l, I.l, 0);
        if (src == NAMED && ver == 0 && !strcmp (pat, "*"))
        {
          MS3TraceList *w = NULL; // the time window reader is the same selection
          if (ms3_readtracelist_timewin (&w, s.path.c_str (), NULL, a < 0 ? NSTUNSET : T0 + a * NS1, b < 0 ? NSTUNSET : T0 + b * NS1, 0, MSF_RECORDLIST, 0)) fail ("reading failed");
          name_records (w, s); inspect (w, want, false, true); mstl3_free (&w, 0);
        }
      }
      ms3_freeselections (sel); c.state (Hash ().s (pat).i (a).i (b).u (ver * 4 + src));
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, "six records of two identifiers and two versions read with every combination of four patterns, windows and version restrictions, and the time window reader"});

  // ---- damage to the payload or to stated counts: both ways fail or both give the same
  cfg.scenarios.push_back ({"damage", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      int form = c.pick (NFORMS), src = c.pick (2) ? NAMED : BUFFER, where = c.pick (2); Stream st; nstime_t at = T0;
      for (int i = 0; i < 2; i++) { R r; r.key = i + 1; r.sid = SID; r.type = form_type (form); r.n = 9; r.start = at; at = r.end () + NS1; st.add (r, form); }
      size_t o = st.off[where]; bool v2 = form >= V2ST1;
      size_t doff = v2 ? 64 : 40 + strlen (SID) + (st.rs[where].key % 2 ? 7 : 0), dlen = st.len[where] - doff;
      int kind = c.pick (3);
      if (kind == 0) { size_t k = c.pick (std::min<size_t> (dlen, thorough ? 128 : 72)); st.b[o + doff + k] ^= c.one<int> ({0x01, 0x40, 0x80, 0xff}); }
      else if (kind == 1) { uint32_t n = c.one<uint32_t> ({0, 1, 8, 10, 11, 20, 1000, 65535}); if (v2) set (st.b, o + 30, n, 2, !(form == V2I32LE || form == V2ST2LE)); else set (st.b, o + 24, n, 4, false); }
      else { if (v2) throw PruneEx (); uint32_t n = c.one<uint32_t> ({0x7fffffff, 0x80000000, 0xffffffff, 100000, 3}); set (st.b, o + 24, n, 4, false); }
      // judged record by record, as immediate decoding does
      bool ok = true; bytes want; int64_t total = 0; MS3Record *m = NULL; char ty = 0;
      for (int i = 0; i < 2; i++)
      {
        int rc = msr3_parse (st.b.data () + st.off[i], st.len[i], &m, 0, 0); if (rc) fail ("not parsed: %d", rc);
        int64_t n = m->samplecnt ? msr3_unpack_data (m, 0) : 0;
        if (n != m->samplecnt) ok = false;
        else if (n) { want.append ((char *)m->datasamples, (size_t)n * ms_samplesize (m->sampletype)); total += n; ty = m->sampletype; }
      }
      msr3_free (&m); c.step (2);
      Source s (src, st); AutoList D;
      if (s.read (&D.l, MSF_RECORDLIST, false)) fail ("reading failed");
      // the stated counts decide whether the records still abut; decode every segment
      bytes got; int64_t n = 0; bool dok = true;
      for (MS3TraceSeg *g = D.l->traces.next[0]->first; g; g = g->next)
      {
        int64_t rc = mstl3_unpack_recordlist (D.l->traces.next[0], g, NULL, 0, 0); c.step ();
        if (rc < 0) { dok = false; if (g->datasamples || g->datasize || g->numsamples) fail ("samples left in a segment after failed decoding"); }
        else { n += rc; got += seg_samples (g); if (rc != g->samplecnt) fail ("%lld samples decoded without error, %lld stated", (long long)rc, (long long)g->samplecnt); }
      }
      if (dok != ok) fail ("decoding later %s, immediately %s", dok ? "succeeds" : "fails", ok ? "succeeds" : "fails");
      if (ok && (n != total || (where == 1 || kind == 0 ? got != want : false))) fail ("samples decoded later differ");
      (void)ty; c.nontriv (); c.state (Hash ().s (st.b));
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, "two records of every form, payload bytes changed at every position of the first frame, sample counts replaced by smaller, larger and extreme values, in either record, in memory and in a file"});

  // ---- far into a file
  cfg.scenarios.push_back ({"far", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      Stream st; nstime_t at = T0; int n = 1 + c.pick (3); for (int i = 0; i < n; i++) { R r; r.key = i + 1; r.sid = SID; r.n = 9; r.start = at; at = r.end () + NS1; st.add (r, c.pick (2) ? ST2 : I32); }
      int64_t mark = c.one<int64_t> ({1LL << 31, 1LL << 32, 3LL << 31, 1LL << 33, 1LL << 40}), back = c.one<int64_t> ({-1, 0, 1, 41, 70, -100000}); if (back > 70) back = 70;
      int src = c.one<int> ({RANGED, OPENFILE}), out = c.pick (3);
      Source s (src, st, mark - back); AutoList D, I; if (s.read (&D.l, MSF_RECORDLIST, false) || s.read (&I.l, MSF_UNPACKDATA, false)) fail ("reading %lld bytes into a file failed", (long long)(mark - back));
      name_records (D.l, s); compare (c, D.l, I.l, out); bytes got; c.nontriv (); c.state (Hash ().i (mark - back).i (n).i (src).i (out));
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, "1 to 3 records around the 2, 4, 6 and 8 GiB and 1 TiB marks of named and open files"});

  // ---- sources that cannot be read
  cfg.scenarios.push_back ({"unreadable", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      int what = c.pick (8), which = c.pick (3); bool own = c.flip (); int src = c.one<int> ({NAMED, OPENFILE, RANGED, BUFFER});
      Stream st; nstime_t at = T0; for (int i = 0; i < 3; i++) { R r; r.key = i + 1; r.sid = SID; r.n = 9; r.start = at; at = r.end () + NS1; st.add (r, i == 1 ? ST2 : I32); }
      {
        Source s (src, st); AutoList D; if (s.read (&D.l, MSF_RECORDLIST, false)) fail ("reading failed");
        MS3TraceID *id = D.l->traces.next[0]; MS3TraceSeg *g = id->first; MS3RecordPtr *p = g->recordlist->first; for (int i = 0; i < which; i++) p = p->next;
        bytes file = s.dir.at ("in"); bool bad = true; struct { uint32_t doff; int64_t fo; } keep = {p->dataoffset, p->fileoffset};
        bool isfile = src != BUFFER;
        switch (what)
        {
        case 0: if (!isfile) throw PruneEx (); { int64_t end = s.base + st.off[which] + c.pick (st.len[which]); if (truncate (file.c_str (), end)) fail ("truncate"); } break; // cut anywhere in the record
        case 1: if (src != NAMED && src != RANGED) throw PruneEx (); unlink (file.c_str ()); break;
        case 2: p->dataoffset = c.one<uint32_t> ({0, 39, 0xffffffff, (uint32_t)st.len[which], (uint32_t)st.len[which] + 1}); break;
        case 3: if (isfile) throw PruneEx (); p->bufferptr = NULL; break; // nowhere
        case 4: if (!isfile) throw PruneEx (); p->fileoffset = c.one<int64_t> ({-1, 1 << 20, INT64_MAX}); break;
        case 5: if (src != NAMED) throw PruneEx (); p->filename = "/nonexistent/file"; break;
        case 6: p->msr->encoding = c.one<int> ({77, 2, 4, 5}); break; // unknown encoding, or samples of another type
        case 7: bad = false; break;
        }
        bytes head = seg_head (g);
        Buf o (bytes (own ? 27 * 4 : 1, '\xee'));
        int64_t rc = mstl3_unpack_recordlist (id, g, own ? o.p : NULL, own ? 27 * 4 : 0, 0); c.step ();
        if (bad && rc != -1) fail ("%lld returned for a source that cannot be read (%d)", (long long)rc, what);
        if (!bad && rc != 27) fail ("%lld returned", (long long)rc);
        if (seg_head (g) != head) fail ("segment changed");
        if (bad && (g->datasamples || g->numsamples || g->datasize)) fail ("samples left in the segment after failed decoding");
        // and again once it can be read
        if (bad && what != 1 && what != 0 && what != 3 && what != 5 && what != 6)
        {
          p->dataoffset = keep.doff; p->fileoffset = keep.fo;
          rc = mstl3_unpack_recordlist (id, g, NULL, 0, 0); if (rc != 27 || g->numsamples != 27) fail ("%lld returned the second time", (long long)rc);
        }
        c.nontriv (); c.state (Hash ().u (what).u (which).u (src * 2 + own));
      }
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, "file cut at every byte of each of three records, removed, other names, offsets before, after and beyond, invalid data offsets, no source, other encodings; into own and library space"});

  // ---- several files
  cfg.scenarios.push_back ({"files", [=] (Ctx &c) {
    MemCheck mk; int low = lowfd ();
    {
      Dir d; bytes f[2] = {d.at ("in"), d.at ("in2")}; Stream st[2]; nstime_t at = T0; std::vector<R> all; int map = c.pick (64); bool range = c.flip (), signs = c.flip (); if (signs) { f[0] = d.at ("a@b@7"); f[1] = d.at ("@1-2@c"); }
      for (int i = 0; i < 6; i++) { R r; r.key = i + 1; r.sid = SID; r.n = 4; r.start = at; at = r.end () + NS1; st[map >> i & 1].add (r, i % 2 ? ST1 : I16); all.push_back (r); }
      AutoList D; bytes names[2];
      int order = c.pick (2);
      for (int k = 0; k < 2; k++) { int j = k ^ order; spill (f[j], st[j].b); names[j] = f[j] + (range ? "@0-" : ""); if (st[j].b.size () && ms3_readtracelist (&D.l, names[j].c_str (), NULL, 0, MSF_RECORDLIST | (range ? MSF_PNAMERANGE : 0), 0)) fail ("reading failed"); }
      c.step (2);
      if (D.l->traces.next[0]->numsegments != 1) fail ("%u segments", D.l->traces.next[0]->numsegments);
      MS3TraceSeg *g = D.l->traces.next[0]->first;
      int64_t rc = mstl3_unpack_recordlist (D.l->traces.next[0], g, NULL, 0, 0); c.step ();
      if (rc != 24) fail ("%lld samples decoded from records in two files", (long long)rc);
      for (int i = 0; i < 24; i++) if (((int32_t *)g->datasamples)[i] != (i / 4 + 1) * 1000 + i % 4) fail ("sample %d", i);
      c.nontriv (); c.state (Hash ().u (map).u (order));
    }
    mk.done ("deferred decoding"); if (lowfd () != low) fail ("a file is left open");
  }, "six records distributed over two files in all 64 ways, read in either order, with and without byte ranges and '@' in the names"});
  return run (argc, argv, cfg);
}
