// P24: writing to files stores exactly the packed records and reports every failure.
#include "ref.hpp"
#include <stdio_ext.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace mc; using namespace ref;

struct Dir
{
  char d[64];
  Dir () { strcpy (d, "/tmp/p24-XXXXXX"); if (!mkdtemp (d)) fail ("scratch directory"); }
  bytes at (const char *n) const { return bytes (d) + "/" + n; }
  ~Dir () { for (const char *n : {"out", "sub", "prior"}) { unlink (at (n).c_str ()); } rmdir (at ("sub").c_str ()); rmdir (d); }
};
static bytes slurp (const bytes &p)
{
  bytes r; char b[65536]; size_t n; FILE *f = fopen (p.c_str (), "rb");
  if (!f) return "<absent>";
  while ((n = fread (b, 1, sizeof b, f)) > 0) r.append (b, n);
  fclose (f);
  return r;
}
static void spill (const bytes &p, const bytes &v) { FILE *f = fopen (p.c_str (), "wb"); if (!f) fail ("scratch file"); fwrite (v.data (), 1, v.size (), f); fclose (f); }
static int lowfd () { int f = open ("/dev/null", O_RDONLY); close (f); return f; }

// ---------------------------------------------------------------- what is written
struct Rec { MS3Record *m; std::vector<bytes> store; Rec () : m (msr3_init (NULL)) {} ~Rec () { if (m) { m->datasamples = NULL; m->extra = NULL; msr3_free (&m); } } };
static const char KINDS[] = "ifdt";
static bytes samples (char kind, int n, int seed)
{
  bytes b;
  for (int i = 0; i < n; i++)
  {
    int v = ((i * 7919 + seed * 131) % 2003) - 1000;
    if (kind == 'i') { int32_t x = v; b.append ((char *)&x, 4); }
    else if (kind == 'f') { float x = v + 0.25f; b.append ((char *)&x, 4); }
    else if (kind == 'd') { double x = v + 0.125; b.append ((char *)&x, 8); }
    else b += (char)('a' + (i + seed) % 26);
  }
  return b;
}
static bytes snapshot (const MS3Record *m)
{
  bytes b = msr_str (m) + mc::fmt ("|%p|%p|%p|%zu|%d|", (void *)m->record, (void *)m->extra, m->datasamples, (size_t)m->datasize, m->swapflag);
  if (m->extra) b.append (m->extra, m->extralength);
  if (m->datasamples) b.append ((char *)m->datasamples, (size_t)m->numsamples * ms_samplesize (m->sampletype));
  return b;
}
static void make (Rec &r, char kind, int n, int reclen, int enc, bool extra, int seed)
{
  MS3Record *m = r.m;
  strcpy (m->sid, "FDSN:XX_TEST_00_H_H_Z");
  m->reclen = reclen; m->encoding = enc; m->pubversion = 2; m->flags = 4; m->starttime = 1700000000123456789LL; m->samprate = 20.0;
  m->sampletype = kind;
  r.store.clear (); r.store.push_back (samples (kind, n, seed)); r.store.push_back ("{\"a\":[1,2,{\"b\":\"text\"}]}");
  if (n) m->datasamples = (void *)r.store[0].data ();
  m->numsamples = m->samplecnt = n;
  if (extra) { m->extra = (char *)r.store[1].data (); m->extralength = r.store[1].size (); }
}
struct Listing { MS3TraceList *l = NULL; ~Listing () { if (l) mstl3_free (&l, 1); } };
static bytes snapshot (MS3TraceList *l)
{
  bytes b = mc::fmt ("%u %p ", l->numtraceids, (void *)l->traces.next[0]);
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    b += mc::fmt ("[%s v%d %lld %lld %u %p", id->sid, id->pubversion, (long long)id->earliest, (long long)id->latest, id->numsegments, (void *)id);
    for (MS3TraceSeg *s = id->first; s; s = s->next)
    {
      b += mc::fmt ("(%lld %lld %.17g %lld %lld %c %p %zu %p %p", (long long)s->starttime, (long long)s->endtime, s->samprate, (long long)s->samplecnt, (long long)s->numsamples, s->sampletype, s->datasamples, (size_t)s->datasize, (void *)s->recordlist, s->prvtptr);
      if (s->datasamples) b.append ((char *)s->datasamples, (size_t)s->numsamples * ms_samplesize (s->sampletype));
      b += ")";
    }
    b += "]";
  }
  return b;
}
// an independent statement of what a trace list is written as: every segment of every identifier in order
static bytes expected (MS3TraceList *l, int reclen, int enc, uint32_t flags, int64_t *count)
{
  bytes out; *count = 0;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
    for (MS3TraceSeg *s = id->first; s; s = s->next)
    {
      Rec r; MS3Record *m = r.m;
      strcpy (m->sid, id->sid); m->pubversion = id->pubversion; m->reclen = reclen;
      m->encoding = s->sampletype == 'f' ? 4 : s->sampletype == 'd' ? 5 : s->sampletype == 't' ? 0 : enc;
      m->starttime = s->starttime; m->samprate = s->samprate; m->sampletype = s->sampletype; m->datasamples = s->datasamples; m->numsamples = s->numsamples; m->samplecnt = s->samplecnt;
      Packed p = pack_all (m, flags | MSF_FLUSHDATA);
      for (auto &x : p.recs) out += x;
      if (p.rc < 0) { *count = -1; return out; }
      *count += p.rc;
    }
  return out;
}

// ---------------------------------------------------------------- calling with a destination
enum { TOFILE, TOSTDOUT };
struct Dest
{
  Dir dir; int kind; int64_t limit; bytes path;
  Dest (int k, int64_t lim = -1) : kind (k), limit (lim) { path = dir.at ("out"); }
  template<class F> int64_t call (F f, bool after = true)
  {
    int save = -1, fd = -1, low = lowfd ();
    if (kind == TOSTDOUT)
    {
      fflush (stdout); save = dup (1);
      fd = open (path.c_str (), O_WRONLY | O_CREAT | O_APPEND, 0600); dup2 (fd, 1); close (fd);
    }
    struct rlimit old, now;
    getrlimit (RLIMIT_FSIZE, &old); now = old;
    if (limit >= 0) { now.rlim_cur = limit; setrlimit (RLIMIT_FSIZE, &now); }
    int64_t rc = f (kind == TOSTDOUT ? "-" : path.c_str ());
    setrlimit (RLIMIT_FSIZE, &old);
    if (kind == TOSTDOUT)
    {
      // the caller can go on using its standard output
      if (rc >= 0 && after) { if (printf ("after") != 5 || fflush (stdout)) { dup2 (save, 1); fail ("standard output not usable after writing records to it"); } }
      __fpurge (stdout); clearerr (stdout);
      dup2 (save, 1); close (save);
    }
    if (lowfd () != low) fail ("a file descriptor is left open");
    return rc;
  }
};

int main (int argc, char **argv)
{
  setup ();
  signal (SIGXFSZ, SIG_IGN); signal (SIGPIPE, SIG_IGN);
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P24";
  cfg.rule = "every choice of what is written, how, where and where the write fails within the stated grids";
  cfg.assumptions = {"a full file system is represented by the file size limit of the process: the write that crosses it is cut there and later ones fail", "that the packed records themselves are right is P01 and P11"};

  // ---- records
  std::vector<int> NS = {0, 1, 50, 700}; if (thorough) NS = {0, 1, 2, 50, 99, 700, 3000};
  auto encs = [] (char k) -> std::vector<int> { return k == 'i' ? std::vector<int>{-1, 1, 3, 10, 11} : k == 'f' ? std::vector<int>{4} : k == 'd' ? std::vector<int>{5} : std::vector<int>{0}; };
  cfg.scenarios.push_back ({"records", [=] (Ctx &c) {
    MemCheck mk; bytes err;
    {
      char kind = KINDS[c.pick (4)]; int n = c.of (NS); int enc = c.of (encs (kind)); int reclen = c.one<int> ({-1, 256, 512}); bool extra = c.flip ();
      int ver = c.pick (3); uint32_t flags = (c.flip () ? MSF_FLUSHDATA : 0) | (ver == 1 ? MSF_PACKVER2 : 0);
      Dest d (c.pick (2)); int mode = c.pick (3); int times = 1 + c.pick (2); int verbose = c.pick (2) ? 3 : 0;
      Rec r; make (r, kind, n, reclen, enc, extra, 1); if (ver == 2) r.m->formatversion = 2;
      Packed p = pack_all (r.m, flags); c.step ();
      bytes want; for (auto &x : p.recs) want += x;
      bytes prior = mode == 0 ? "" : bytes ("prior content of the file that is longer than some of the records written to it, or not: ") + bytes (mode == 2 ? 20000 : 10, 'p');
      if (mode) spill (d.path, prior);
      int8_t over = c.one<int> ({0, 1, -1});
      bytes have = prior;
      for (int t = 0; t < times; t++)
      {
        bytes before = snapshot (r.m);
        int64_t rc = d.call ([&] (const char *path) { return msr3_writemseed (r.m, path, over, flags, verbose); }); c.step ();
        if (snapshot (r.m) != before) fail ("the record of the caller was changed");
        if (rc != (p.rc < 0 ? -1 : p.rc)) fail ("%lld returned, %d records packed", (long long)rc, p.rc);
        if (d.kind == TOSTDOUT) have += want + (rc >= 0 ? "after" : "");
        else if (over) have = want; else have += want;
        bytes got = slurp (d.path);
        if (got != have) fail ("file holds %zu bytes, expected %zu, first difference at %zu", got.size (), have.size (), (size_t)(std::mismatch (got.begin (), got.begin () + std::min (got.size (), have.size ()), have.begin ()).first - got.begin ()));
        if (rc > 0) c.nontriv ();
      }
      c.state (Hash ().s (want).u (d.kind * 8 + mode * 2 + over));
    }
    mk.done ("writing records");
  }, "4 sample types, every packable encoding, sample counts from 0 to many records, 3 record lengths, version 2 and 3, with and without flush and extra headers; new, short and long existing files, append and overwrite, repeated, named files and standard output, quiet and verbose"});

  // ---- trace lists
  auto build = [] (Ctx &c, Listing &L, int ids, bool wide) {
    L.l = mstl3_init (NULL);
    for (int i = 0; i < ids; i++)
    {
      char kind = KINDS[c.pick (4)]; int segs = 1 + c.pick (2);
      for (int s = 0; s < segs; s++)
      {
        Rec r; make (r, kind, wide ? c.one<int> ({0, 3, 600}) : c.one<int> ({3, 600}), 512, -1, false, i * 3 + s);
        sprintf (r.m->sid, "FDSN:XX_S%d__H_H_Z", 3 - i); r.m->pubversion = 1 + i; r.m->starttime += s * 5000 * NS1; r.m->extra = NULL;
        if (!mstl3_addmsr (L.l, r.m, 1, 1, 0, NULL)) fail ("mstl3_addmsr failed");
      }
    }
  };
  cfg.scenarios.push_back ({"tracelists", [=] (Ctx &c) {
    MemCheck mk;
    {
      Listing L; build (c, L, c.pick (thorough ? 4 : 3), thorough);
      int reclen = c.one<int> ({-1, 256}); int enc = c.one<int> ({-1, 10, 3}); uint32_t flags = (c.flip () ? MSF_PACKVER2 : 0) | (c.flip () ? MSF_FLUSHDATA | MSF_MAINTAINMSTL : 0);
      Dest d (c.pick (2)); int8_t over = c.one<int> ({0, 1, -128}); int prior = c.pick (2); 
      bytes have = prior ? bytes (5000, 'p') : ""; if (prior) spill (d.path, have);
      int64_t n; bytes want = expected (L.l, reclen, enc, flags, &n);
      for (int t = 0; t < 2; t++)
      {
        bytes before = snapshot (L.l);
        int64_t rc = d.call ([&] (const char *path) { return mstl3_writemseed (L.l, path, over, reclen, enc, flags, 0); }); c.step ();
        if (snapshot (L.l) != before) fail ("the trace list of the caller was changed");
        if (rc != n) fail ("%lld returned, %lld records packed", (long long)rc, (long long)n);
        if (d.kind == TOSTDOUT) have += want + (rc >= 0 ? "after" : ""); else if (over) have = want; else have += want;
        bytes got = slurp (d.path);
        if (got != have) fail ("file holds %zu bytes, expected %zu", got.size (), have.size ());
        if (rc > 0) c.nontriv ();
      }
      c.state (Hash ().s (want).u (d.kind * 4 + over * 2 + prior));
    }
    mk.done ("writing trace lists");
  }, "lists of 0 to 2 (thorough: 3) identifiers with 1 or 2 segments of few or many samples of every type; 2 record lengths, 3 encodings, both versions, append and overwrite, new and existing files, standard output, written twice"});

  // ---- write failures at every byte
  for (int list = 0; list < 2; list++)
    cfg.scenarios.push_back ({list ? "full-tracelists" : "full-records", [=] (Ctx &c) {
      MemCheck mk;
      {
        int kindn = c.pick (thorough ? 4 : 3); // small: error only at the final flush; large: during writing; larger than the buffer
        static const int N[] = {20, 900, 2500, 6000};
        Dest d (c.pick (2)); int over = c.pick (2), prior = c.pick (2);
        Rec r; Listing L; bytes want; int64_t n; uint32_t flags = MSF_FLUSHDATA;
        make (r, 'i', N[kindn], kindn == 2 ? 2048 : 256, 3, false, 1);
        if (list)
        {
          L.l = mstl3_init (NULL);
          if (!mstl3_addmsr (L.l, r.m, 0, 1, 0, NULL)) fail ("mstl3_addmsr failed");
          strcpy (r.m->sid, "FDSN:YY_B__H_H_Z"); if (!mstl3_addmsr (L.l, r.m, 0, 1, 0, NULL)) fail ("mstl3_addmsr failed");
          want = expected (L.l, r.m->reclen, 3, flags, &n);
        }
        else { Packed p = pack_all (r.m, flags); n = p.rc; for (auto &x : p.recs) want += x; }
        bytes have = prior ? bytes (100, 'p') : ""; if (prior) spill (d.path, have);
        if (d.kind == TOSTDOUT && over) { c.state (Hash ().u (1)); return; }
        if (over && d.kind == TOFILE) have = "";
        int64_t total = have.size () + want.size ();
        // every limit for short outputs, every limit near a record or buffer edge for long ones
        int64_t limit;
        if (total < 1200) limit = c.pick (total + 3);
        else
        {
          std::vector<int64_t> ls;
          int64_t rl = kindn == 2 ? 2048 : 256;
          for (int64_t b = 0; b <= total + rl; b += kindn == 2 ? 2048 : thorough ? 256 : 512) for (int64_t x = b - 1; x <= b + 1; x++) if (x >= 0) ls.push_back (x);
          for (int64_t b = 4096; b <= total; b += 4096) for (int64_t x : {b - 1, b, b + 1, b + (int64_t)have.size ()}) ls.push_back (x);
          for (int64_t x = total - 3; x <= total + 3; x++) ls.push_back (x);
          limit = c.of (ls);
        }
        d.limit = limit;
        if (prior && limit < (int64_t)have.size ()) limit = have.size ();
        bytes before = list ? snapshot (L.l) : snapshot (r.m);
        int errors = ref::log ().errors;
        int64_t rc = d.call ([&] (const char *path) { return list ? mstl3_writemseed (L.l, path, over, r.m->reclen, 3, flags, 0) : msr3_writemseed (r.m, path, over, flags, 0); }, false); c.step ();
        if ((list ? snapshot (L.l) : snapshot (r.m)) != before) fail ("the data of the caller was changed");
        bytes got = slurp (d.path), all = have + want;
        if (limit >= total)
        {
          if (rc != n) fail ("%lld returned with room for everything, %lld records packed", (long long)rc, (long long)n);
          if (got != all) fail ("file holds %zu bytes, expected %zu", got.size (), all.size ());
        }
        else
        {
          if (rc >= 0) fail ("%lld returned although only %lld of %lld bytes could be written (%zu in the file)", (long long)rc, (long long)limit, (long long)total, got.size ());
          if (ref::log ().errors == errors) fail ("no error message for a failed write");
          if (got.size () > all.size () || all.compare (0, got.size (), got)) fail ("bytes other than the records in the file");
          c.nontriv ();
        }
        c.state (Hash ().u (limit).u (total).u (d.kind * 4 + over * 2 + prior));
      }
      mk.done ("failed writes");
    }, "the file can grow to L bytes only: every L for short outputs, all record edges, buffer edges and ends (each -1, 0, +1) for outputs larger than the stdio buffer; append, overwrite, existing content, standard output"});

  // ---- destinations that cannot be opened or written
  cfg.scenarios.push_back ({"unusable", [=] (Ctx &c) {
    MemCheck mk;
    {
      bool list = c.flip (), over = c.flip (); int what = c.pick (8);
      Dir dir; Rec r; make (r, 'i', c.one<int> ({20, 5000}), 512, 3, c.flip (), 1);
      Listing L; if (list) { L.l = mstl3_init (NULL); if (!mstl3_addmsr (L.l, r.m, 0, 1, 0, NULL)) fail ("mstl3_addmsr failed"); }
      bytes path; int save = -1, low = lowfd (), p[2];
      struct rlimit old, now; getrlimit (RLIMIT_NOFILE, &old); now = old;
      switch (what)
      {
      case 0: path = dir.d; break;                                    // a directory
      case 1: path = dir.at ("no/such/place"); break;
      case 2: path = ""; break;
      case 3: path = dir.at ("x") + bytes (5000, 'x'); break;          // name too long
      case 4: spill (dir.at ("out"), "file"); path = dir.at ("out") + "/below"; break;
      case 5: path = dir.at ("out"); now.rlim_cur = low; setrlimit (RLIMIT_NOFILE, &now); break; // no descriptor left
      case 6: path = "-"; save = dup (1); close (1); break;            // standard output closed
      case 7: path = "-"; save = dup (1); (void)!pipe (p); close (p[0]); dup2 (p[1], 1); close (p[1]); break; // reader gone
      }
      bytes before = list ? snapshot (L.l) : snapshot (r.m);
      int errors = ref::log ().errors;
      int64_t rc = list ? mstl3_writemseed (L.l, path.c_str (), over, 512, 3, MSF_FLUSHDATA, 0) : msr3_writemseed (r.m, path.c_str (), over, MSF_FLUSHDATA, 0); c.step ();
      setrlimit (RLIMIT_NOFILE, &old);
      if (save >= 0) { __fpurge (stdout); clearerr (stdout); dup2 (save, 1); close (save); }
      if (lowfd () != low) fail ("a file descriptor is left open");
      if ((list ? snapshot (L.l) : snapshot (r.m)) != before) fail ("the data of the caller was changed");
      if (rc != -1) fail ("%lld returned for a destination that cannot be written (%d)", (long long)rc, what);
      if (ref::log ().errors == errors) fail ("no error message");
      if (what == 4 && slurp (dir.at ("out")) != "file") fail ("another file was changed");
      c.nontriv (); c.state (Hash ().u (what * 4 + list * 2 + over));
    }
    mk.done ("unusable destinations");
  }, "a directory, missing directories, empty and overlong names, a path below a file, no descriptor left, closed standard output, a pipe without reader; records and trace lists, small and large, append and overwrite"});

  // ---- data that cannot be packed
  cfg.scenarios.push_back ({"unpackable", [=] (Ctx &c) {
    MemCheck mk;
    {
      bool list = c.flip (); int what = c.pick (5); Dest d (c.pick (2)); bool over = c.flip (); int prior = c.pick (2);
      bytes have = prior ? bytes (100, 'p') : ""; if (prior) spill (d.path, have); if (over && d.kind == TOFILE) have = "";
      int reclen = what == 1 ? 39 : what == 2 ? MAXRECLEN + 1 : what == 3 ? 50 : 256, enc = 11, n = 600, bad = -1; uint32_t flags = MSF_FLUSHDATA;
      Rec r; make (r, 'i', n, reclen, enc, false, 1);
      if (what == 0) { bad = c.one<int> ({0, 1, 5, 150, 300, 599}); int32_t v = INT32_MAX; memcpy (&r.store[0][bad * 4], &v, 4); }
      int pos = 0, segs = 1; int64_t want_rc = -1; bytes want;
      Listing L;
      if (list)
      {
        // the segment that fails is any of up to three, in one or several identifiers
        segs = 1 + c.pick (3); pos = c.pick (segs); bool split = c.flip ();
        L.l = mstl3_init (NULL);
        for (int i = 0; i < segs; i++)
        {
          Rec q; make (q, 'i', 300, 256, -1, false, i);
          MS3Record *m = i == pos ? r.m : q.m;
          nstime_t s0 = m->starttime;
          if (split) sprintf (m->sid, "FDSN:XX_S%d__H_H_Z", i); else m->starttime += i * 5000 * NS1;
          if (what == 4 && i == pos) sprintf (m->sid, "FDSN:XX_TOOLONG%d_00_H_H_Z", split ? i : 0), flags |= MSF_PACKVER2;
          if (!mstl3_addmsr (L.l, m, 0, 1, 0, NULL)) fail ("mstl3_addmsr failed");
          m->starttime = s0;
        }
        want = expected (L.l, reclen, enc, flags, &want_rc);
      }
      else
      {
        if (what == 4) { r.m->sampletype = 'x'; r.m->numsamples = 1; }
        Packed p = pack_all (r.m, flags); want_rc = p.rc; for (auto &x : p.recs) want += x;
      }
      if (what != 4 && want_rc != -1) fail ("the case is meant to be unpackable: %lld", (long long)want_rc);
      bytes before = list ? snapshot (L.l) : snapshot (r.m);
      int64_t rc = d.call ([&] (const char *path) { return list ? mstl3_writemseed (L.l, path, over, reclen, enc, flags, 0) : msr3_writemseed (r.m, path, over, flags, 0); }, false); c.step ();
      if ((list ? snapshot (L.l) : snapshot (r.m)) != before) fail ("the data of the caller was changed");
      if (rc != want_rc) fail ("%lld returned for data that cannot be packed, expected %lld", (long long)rc, (long long)want_rc);
      bytes got = slurp (d.path);
      // records that were completed before the failure may be in the file, nothing else
      if (got.size () < have.size () || got.compare (0, have.size (), have)) fail ("existing content changed");
      if ((have + want).compare (0, got.size (), got)) fail ("bytes other than complete records in the file");
      c.nontriv (); c.state (Hash ().u (what).u (bad).u (pos * 8 + segs));
      (void)pos;
    }
    mk.done ("unpackable data");
  }, "a sample too large for the encoding at six positions, record lengths too small or large, too little room for the header, an identifier or type that has no record form; in a record, and in each of up to three segments or identifiers of a list"});

  // ---- missing arguments
  cfg.scenarios.push_back ({"arguments", [=] (Ctx &c) {
    Rec r; make (r, 'i', 3, 512, 3, false, 1); Listing L; L.l = mstl3_init (NULL);
    int which = c.pick (4); bool over = c.flip ();
    int64_t rc = which == 0 ? msr3_writemseed (NULL, "/nonexistent/x", over, 0, 0) : which == 1 ? msr3_writemseed (r.m, NULL, over, 0, 0) : which == 2 ? mstl3_writemseed (NULL, "/nonexistent/x", over, 512, 3, 0, 0) : mstl3_writemseed (L.l, NULL, over, 512, 3, 0, 0);
    c.step ();
    if (rc != -1) fail ("%lld returned for a missing argument", (long long)rc);
    c.nontriv (); c.state (Hash ().u (which));
  }, "each required argument missing"});
  return run (argc, argv, cfg);
}
