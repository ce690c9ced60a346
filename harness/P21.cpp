// P21: running out of memory is reported and leaves everything usable.
// Every operation history below is run once with memory available and then with allocation k failing (and with every
// allocation from k on failing until an operation reports failure, and with two failures), for every k. An operation that
// reports failure is repeated with memory available, so the final state has to be the one without failures.
#include "world.hpp"
using namespace mc; using namespace ref; using namespace tl; using namespace world;

static bytes seg_bytes (const MS3TraceSeg *g) { return fmt ("%c", g->sampletype) + bytes ((char *)g->datasamples, (size_t)g->numsamples * ms_samplesize (g->sampletype)); }
struct World
{
  MS3Record *m[3] = {NULL, NULL, NULL}; MS3TraceList *l = NULL; MS3Selections *sel = NULL; MS3FileParam *fp = NULL; LM_PARSED_JSON *ps = NULL; MSLogParam *lp = NULL;
  bytes out; std::set<bytes> recs; Dir dir; LeapSecond *leap0 = leapsecondlist; std::vector<std::shared_ptr<Buf>> bufs;
  const char *buf (const bytes &b) { bufs.push_back (std::make_shared<Buf> (b)); return bufs.back ()->p; }
  ~World ()
  {
    mseh_free_parsestate (&ps);
    for (auto &r : m) msr3_free (&r);
    if (l) mstl3_free (&l, 0);
    if (sel) ms3_freeselections (sel);
    if (fp) { MS3Record *x = NULL; ms3_readmsr_r (&fp, &x, NULL, 0, 0); }
    if (lp) { ms_rlog_free (lp); libmseed_memory.free (lp); }
    if (leapsecondlist != leap0) { while (leapsecondlist) { LeapSecond *n = leapsecondlist->next; libmseed_memory.free (leapsecondlist); leapsecondlist = n; } leapsecondlist = leap0; }
  }
  bytes digest ()
  {
    bytes b; for (auto r : m) b += dump (r) + "\n";
    b += dump (l) + "\n" + dump (sel) + "\n" + out; for (auto &r : recs) b += "\n" + r;
    if (leapsecondlist != leap0) for (LeapSecond *q = leapsecondlist; q; q = q->next) b += fmt (" %lld:%d", (long long)q->leapsecond, q->TAIdelta);
    return b;
  }
};
// atomic: what the operation works on is unchanged when it fails
struct Step { bytes name; bool atomic; std::function<bool (World &)> run; };
typedef std::vector<Step> Script;

static void explore (Ctx &c, const Script &sc, int patterns, bool mayfail = false)
{
  int low = lowfd ();
  MemCheck mk;
  Mem &M = mem ();
  bytes want; int64_t total;
  {
    World w; M.failat = INT64_MAX; M.count = 0; M.failed = 0;
    for (auto &s : sc) if (!s.run (w)) { if (mayfail) { M.failat = -1; throw PruneEx (); } fail ("%s failed with memory available", s.name.c_str ()); }
    total = M.count; M.failat = -1;
    want = w.digest ();
  }
  mk.done ("without failures");
  if (lowfd () != low) fail ("a file is left open");
  if (!total) return;
  int pattern = c.pick (patterns); // one failure; all from k on; two failures
  int64_t k = c.pick (total), k2 = pattern == 2 ? c.pick (std::min<int64_t> (total, 6)) : -1;
  M.failspan = pattern == 1 ? INT64_MAX / 2 : 1;
  {
    World w; M.failat = k; M.count = 0; M.failed = 0;
    int64_t reported = 0;
    for (auto &s : sc)
    {
      bool again = true;
      for (int tries = 0; again; tries++)
      {
        bytes before; int64_t f0 = M.failed, n0 = M.count;
        if (s.atomic) { int64_t at = M.failat; M.failat = -1; before = w.digest (); M.failat = at; }
        c.step ();
        if (s.run (w)) { if (pattern == 1 && M.failed) M.failat = -1; again = false; continue; }
        if (M.failed == f0) fail ("%s failed, no allocation failed%s", s.name.c_str (), reported ? " after an earlier failure" : "");
        reported++; c.nontriv ();
        int64_t at = M.failat; M.failat = -1;
        if (s.atomic && w.digest () != before) fail ("%s failed for lack of memory and changed what it works on (allocation %lld, pattern %d)", s.name.c_str (), (long long)k, pattern);
        w.digest ();
        // the failure is over, or one more follows within the repetition
        if (pattern == 2 && reported == 1) M.failat = M.count + k2; else if (pattern != 1 && M.count <= at) M.failat = at; else M.failat = -1;
        (void)n0; if (tries > 4) fail ("%s does not recover", s.name.c_str ());
      }
    }
    M.failat = -1; M.failspan = 1;
    bytes got = w.digest ();
    if (got != want) { c.say ("without failures:\n%s\nwith:\n%s\n", want.substr (0, 3000).c_str (), got.substr (0, 3000).c_str ()); fail ("%s: the outcome differs from the one without failures (allocation %lld of %lld failed, pattern %d, %lld reported)", sc[0].name.c_str (), (long long)k, (long long)total, pattern, (long long)reported); }
  }
  if (M.bad) fail ("memory released twice or not from the allocator");
  mk.done ("after an allocation failed"); if (lowfd () != low) fail ("a file is left open after an allocation failed");
  c.state (Hash ().s (want).i (k).u (pattern));
}

static void collect (char *r, int n, void *w) { bytes b (r, n); if (b[0] != 'M') b.replace (0, 6, "000000"); ((World *)w)->recs.insert (b); }

// ---------------------------------------------------------------- header operations
static Step header_step (int op, int slot, bool shared)
{
  auto st = [=] (World &w) { return shared ? &w.ps : (LM_PARSED_JSON **)NULL; };
  auto mk = [=] (const char *n, std::function<int (World &)> f) { return Step{fmt ("%s%s", n, shared ? " (shared parse state)" : ""), !shared, [=] (World &w) { return f (w) == 0; }}; };
  switch (op)
  {
  case 0: return mk ("mseh_set_int64", [=] (World &w) { int64_t v = 5; return mseh_set_ptr_r (w.m[slot], "/a/b/c", &v, 'i', st (w)); });
  case 1: return mk ("mseh_set_string", [=] (World &w) { return mseh_set_ptr_r (w.m[slot], "/FDSN/Name", (void *)"a text of some length to be stored", 's', st (w)); });
  case 2: return mk ("mseh_set_number", [=] (World &w) { double v = 0.5; return mseh_set_ptr_r (w.m[slot], "/FDSN/Time/Correction", &v, 'n', st (w)); });
  case 3: return mk ("mseh_set_boolean", [=] (World &w) { int v = 1; return mseh_set_ptr_r (w.m[slot], "/FDSN/Clock/Locked", &v, 'b', st (w)); });
  case 4: return mk ("merge patch", [=] (World &w) { return mseh_set_ptr_r (w.m[slot], "", (void *)"{\"a\":{\"z\":[1,2,3]},\"x\":null,\"FDSN\":{\"New\":{\"q\":1}}}", 'M', st (w)); });
  case 5: return mk ("mseh_add_event_detection", [=] (World &w) { MSEHEventDetection e; memset (&e, 0, sizeof e); strcpy (e.type, "MURDOCK"); strcpy (e.detector, "det"); e.signalamplitude = 3; e.signalperiod = 1; e.backgroundestimate = NAN; strcpy (e.wave, "DIL"); strcpy (e.units, "COUNTS"); e.onsettime = T0; for (int i = 0; i < 6; i++) e.medsnr[i] = i; e.medlookback = 2; e.medpickalgorithm = 1; return mseh_add_event_detection_r (w.m[slot], NULL, &e, st (w)); });
  case 6: return mk ("mseh_add_calibration", [=] (World &w) { MSEHCalibration e; memset (&e, 0, sizeof e); strcpy (e.type, "STEP"); e.begintime = T0; e.endtime = NSTUNSET; e.steps = 2; e.firstpulsepositive = 1; e.alternatesign = 0; strcpy (e.trigger, "AUTOMATIC"); e.continued = -1; e.amplitude = 1; strcpy (e.inputunits, "V"); strcpy (e.amplituderange, "x"); e.duration = 1; e.sineperiod = 0; e.stepbetween = 1; strcpy (e.inputchannel, "C"); e.refamplitude = 1; strcpy (e.coupling, "R"); strcpy (e.rolloff, "3dB"); strcpy (e.noise, "W"); return mseh_add_calibration_r (w.m[slot], NULL, &e, st (w)); });
  case 7: return mk ("mseh_add_timing_exception", [=] (World &w) { MSEHTimingException e; memset (&e, 0, sizeof e); e.vcocorrection = 50; e.time = T0; e.usec = 0; e.receptionquality = 80; e.count = 3; strcpy (e.type, "MISSING"); strcpy (e.clockstatus, "ok"); return mseh_add_timing_exception_r (w.m[slot], NULL, &e, st (w)); });
  case 8: return mk ("mseh_add_recenter", [=] (World &w) { MSEHRecenter e; memset (&e, 0, sizeof e); strcpy (e.type, "MASS"); e.begintime = T0; e.endtime = T0 + NS1; strcpy (e.trigger, "MANUAL"); return mseh_add_recenter_r (w.m[slot], NULL, &e, st (w)); });
  case 9: return Step{"mseh_replace", !shared, [=] (World &w) { mseh_free_parsestate (&w.ps); return mseh_replace (w.m[slot], (char *)"{\"r\":[true,null,{\"s\":\"t\"}]}") >= 0; }};
  case 10: return Step{"mseh_get", true, [=] (World &w) { int64_t v = -1; char s[20] = ""; int r1 = mseh_get_ptr_r (w.m[slot], "/FDSN/Time/Quality", &v, 'i', 0, st (w)); if (r1 < 0) return false; int r2 = mseh_get_ptr_r (w.m[slot], "/x/1", s, 's', sizeof s, st (w)); if (r2 < 0) return false; w.out += fmt ("get %d %d %lld %s;", r1, r2, (long long)v, s); return true; }};
  case 12: return Step{"mseh_print", true, [=] (World &w) { if (shared) return true; bool keep = log ().keep; log ().keep = true; log ().all.clear (); int r = mseh_print (w.m[slot], 2); bytes t; for (auto &x : log ().all) t += x; log ().keep = keep; if (r >= 0) w.out += t; return r >= 0; }};
  }
  return Step{"mseh_serialize", false, [=] (World &w) { return !shared || mseh_serialize (w.m[slot], &w.ps) >= 0; }};
}
static const int NHEADER = 13;

int main (int argc, char **argv)
{
  setup ();
  mem ().track = true;
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P21";
  cfg.rule = "every operation history of the stated grids x every allocation within it failing, alone, with all later ones until a failure is reported, and followed by another failure in the repetition; block allocation off and on";
  cfg.assumptions = {"memory is obtained through the replaceable allocator; allocations of the C library itself (opening files) do not fail"};
  auto prealloc = [] (Ctx &c) { libmseed_prealloc_block_size = c.pick (2) ? 1000 : 0; };
  int PAT = thorough ? 3 : 2;
  bool th = thorough;

  // ---- records: parse, unpack, change, duplicate, pack
  cfg.scenarios.push_back ({"records", [=] (Ctx &c) {
    prealloc (c); int f = c.pick (NFORM), how = c.pick (3), h1 = c.pick (th ? NHEADER + 1 : 2), then = c.pick (4); R r = rec (1, 40, 0); bytes b = form (f, r);
    Script s;
    bytes other = form (F3X, rec (7, 90, 500)); // an earlier record in the same structure
    if (how == 2) s.push_back ({"msr3_parse of another record", false, [=] (World &w) { return msr3_parse (w.buf (other), other.size (), &w.m[0], MSF_UNPACKDATA, 0) == 0; }});
    s.push_back ({"msr3_parse", false, [=] (World &w) { return msr3_parse (w.buf (b), b.size (), &w.m[0], MSF_VALIDATECRC | (how == 1 ? MSF_UNPACKDATA : 0), 0) == 0; }});
    if (how != 1) s.push_back ({"msr3_unpack_data", false, [=] (World &w) { return msr3_unpack_data (w.m[0], 0) == w.m[0]->samplecnt; }});
    if (h1) s.push_back (th ? header_step (h1 - 1, 0, false) : header_step (5, 0, false));
    if (then == 0) s.push_back ({"msr3_duplicate", true, [=] (World &w) { msr3_free (&w.m[1]); return (w.m[1] = msr3_duplicate (w.m[0], 1)) != NULL; }});
    if (then == 1) s.push_back ({"msr3_resize_buffer", true, [=] (World &w) { return msr3_resize_buffer (w.m[0]) >= 0; }});
    if (then >= 2)
      s.push_back ({"msr3_pack", true, [=] (World &w) {
        int64_t n = 0; int rl = w.m[0]->reclen; w.m[0]->reclen = h1 || f == F2BLK ? 1024 : 256; std::set<bytes> keep = w.recs;
        uint32_t fl = MSF_FLUSHDATA | (then == 3 ? MSF_PACKVER2 : 0);
        int rc = msr3_pack (w.m[0], collect, &w, &n, fl, 0);
        w.m[0]->reclen = rl;
        if (rc < 0) { w.recs = keep; return false; }
        w.out += fmt ("%d records %lld samples;", rc, (long long)n); return true;
      }});
    explore (c, s, PAT, true);
  }, fmt ("%d record forms parsed with and without unpacking, into new and used structures, %s header operation%s, then duplicated, resized or packed in both versions", NFORM, th ? "every" : "one", th ? "" : " or none")});

  // ---- extra headers
  cfg.scenarios.push_back ({"headers", [=] (Ctx &c) {
    int init = c.pick (3), n = th ? 3 : 2; bool shared = c.flip (); libmseed_prealloc_block_size = 0;
    Script s;
    s.push_back ({"msr3_init", false, [=] (World &w) { return (w.m[0] = msr3_init (NULL)) != NULL; }});
    if (init) s.push_back ({"mseh_replace", true, [=] (World &w) { return mseh_replace (w.m[0], (char *)(init == 1 ? "{\"FDSN\":{\"Time\":{\"Quality\":100}},\"x\":[1,\"two\"]}" : "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"A\"}]},\"Time\":{\"Exception\":[{}]},\"Calibration\":{\"Sequence\":[]},\"Recenter\":{\"Sequence\":[{}]}}}")) >= 0; }});
    for (int i = 0; i < n; i++) s.push_back (header_step (c.pick (NHEADER), 0, shared));
    if (shared) s.push_back (header_step (11, 0, true));
    explore (c, s, PAT, true);
  }, fmt ("every sequence of %d of 13 header operations on no, some and structured headers, each operation on its own and with a shared parse state", thorough ? 3 : 2)});

  // ---- adding to trace lists
  enum { ADJ, BEFORE, GAP, FILL, OVER, OTHER, VERSION, FLOAT, EMPTY, NADD };
  auto add_script = [=] (Ctx &c, int n, int recptr, bool split) {
    Script s; int64_t hi = 1000, lo = 1000, hole = -1; std::vector<R> v;
    for (int i = 0; i < n; i++)
    {
      int k = i == 0 ? ADJ : c.pick (NADD); R r = rec (i + 1, 5, 0);
      switch (k)
      {
      case ADJ: r.start = T0 + hi * NS1; hi += 5; break;
      case BEFORE: lo -= 5; r.start = T0 + lo * NS1; break;
      case GAP: hole = hi; hi += 5; r.start = T0 + hi * NS1; hi += 5; break;
      case FILL: if (hole < 0) throw PruneEx (); r.start = T0 + hole * NS1; hole = -1; break;
      case OVER: r.start = T0 + (hi - 2) * NS1; break;
      case OTHER: r.sid = "FDSN:XX_OTH__H_H_Z"; r.start = T0; break;
      case VERSION: r.ver = 3; r.start = T0 + hi * NS1; hi += 5; break;
      case FLOAT: r.type = 'f'; r.start = T0 + (hi + 100) * NS1; break;
      case EMPTY: r.data = false; r.start = T0 + (hi + 200) * NS1; break;
      }
      v.push_back (r);
    }
    for (auto &r : v)
      s.push_back ({"adding a record", true, [=] (World &w) {
        if (!w.l && !(w.l = mstl3_init (NULL))) return false;
        Msr m (r); MS3RecordPtr *rp = (MS3RecordPtr *)1;
        MS3TraceSeg *g = recptr ? mstl3_addmsr_recordptr (w.l, m.m, &rp, split, 1, 0, NULL) : mstl3_addmsr (w.l, m.m, split, 1, 0, NULL);
        if (g && recptr) { if (!rp || rp == (MS3RecordPtr *)1) fail ("no record pointer returned"); rp->fileoffset = r.key; }
        return g != NULL;
      }});
    s.insert (s.begin (), {"mstl3_init", false, [=] (World &w) { return (w.l = mstl3_init (NULL)) != NULL; }});
    return s;
  };
  // adding may fail while constructing the message structure of the test itself
  cfg.scenarios.push_back ({"adding", [=] (Ctx &c) {
    prealloc (c); bool recptr = c.flip (), split = c.flip (); Script s = add_script (c, th ? 5 : 4, recptr, split);
    explore (c, s, th ? 3 : 1);
  }, fmt ("every history of %d additions (next, previous, after a gap, filling it, overlapping, other identifier, other version, other type, without samples), with and without record lists and splitting by version", thorough ? 5 : 4)});

  // ---- what is done with a trace list
  cfg.scenarios.push_back ({"lists", [=] (Ctx &c) {
    prealloc (c); int op = c.pick (6); bool big = c.flip (); if (!th && big == (libmseed_prealloc_block_size == 0)) throw PruneEx (); Script s = add_script (c, th ? 4 : 3, op == 5, false);
    if (big) for (int i = 0; i < 3; i++) s.push_back ({"adding a long record", true, [=] (World &w) { R r = rec (50 + i, 300, 5000 + i * 300); Msr m (r); return mstl3_addmsr (w.l, m.m, 0, 1, 0, NULL) != NULL; }});
    auto each = [] (World &w, std::function<bool (MS3TraceID *, MS3TraceSeg *)> f) { for (MS3TraceID *id = w.l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) if (!f (id, g)) return false; return true; };
    if (op == 0) s.push_back ({"mstl3_resize_buffers", true, [=] (World &w) { return mstl3_resize_buffers (w.l) >= 0; }});
    if (op == 1) for (char t : {'d', 'i', 'f', 'd'}) s.push_back ({fmt ("mstl3_convertsamples to %c", t), false, [=] (World &w) { return each (w, [=] (MS3TraceID *, MS3TraceSeg *g) { if (!g->numsamples) return true; bytes b; b = seg_bytes (g); if (mstl3_convertsamples (g, t, 1)) { if (seg_bytes (g) != b) fail ("samples changed by a conversion that failed"); return false; } return true; }); }});
    if (op == 2 || op == 3 || op == 4)
    {
      // packing what is complete, then the rest
      for (int round = 0; round < 2; round++)
        s.push_back ({fmt ("mstl3_pack %d", round), false, [=] (World &w) {
          int64_t n = 0; uint32_t fl = (round ? MSF_FLUSHDATA : 0) | (op == 3 ? MSF_MAINTAINMSTL : 0) | (op == 4 ? MSF_PACKVER2 : 0);
          return mstl3_pack (w.l, collect, &w, op == 4 ? 128 : 192, 11, &n, fl, 0, (char *)(op == 3 ? "{\"e\":1}" : NULL)) >= 0;
        }});
    }
    if (op == 5) s.push_back ({"mstl3_writemseed", true, [=] (World &w) { bytes p = w.dir.at ("w"); if (mstl3_writemseed (w.l, p.c_str (), 1, 192, 11, MSF_FLUSHDATA | MSF_MAINTAINMSTL, 0) < 0) return false; w.out = slurp (p); return true; }});
    explore (c, s, PAT);
  }, "every history of 3 (thorough 4) additions, optionally longer records, then resized, converted between all types, packed in both versions and in preserving mode, or written to a file"});

  // ---- reading
  cfg.scenarios.push_back ({"reading", [=] (Ctx &c) {
    prealloc (c); int f1 = c.pick (NFORM), f2 = c.pick (th ? NFORM : 3) * (th ? 1 : 3), op = c.pick (8); bool unpack = c.flip ();
    std::vector<bytes> rs; bytes all; for (int i = 0; i < 3; i++) { R r = rec (i + 1, 30, i * 30); if (form_type (f1) != form_type (f2) && i == 1) r.start += 1000 * NS1; rs.push_back (form (i == 1 ? f2 : f1, r)); all += rs.back (); }
    uint32_t fl = MSF_VALIDATECRC | (unpack ? MSF_UNPACKDATA : MSF_RECORDLIST);
    Script s;
    if (op == 0)
      for (int i = 0; i < 4; i++) s.push_back ({"ms3_readmsr_r", false, [=] (World &w) { bytes p = w.dir.at ("in"); if (!w.fp && !w.m[0] && i == 0) spill (p, all); int rc = ms3_readmsr_r (&w.fp, &w.m[0], p.c_str (), fl, 0); if (rc == (i < 3 ? MS_NOERROR : MS_ENDOFFILE)) { w.out += dump (w.m[0]); return true; } if (w.m[0]) fail ("record returned together with an error"); return false; }});
    auto whole = [=] (bytes n, std::function<int (World &, MS3TraceList **, const char *)> f) {
      return Step{n, true, [=] (World &w) { bytes p = w.dir.at ("in"); spill (p, all); const char *name = w.buf (p + bytes (1, 0)); /* record lists refer to the name */ MS3TraceList *l = NULL; int rc = f (w, &l, name); if (rc) { bytes d = dump (l); if (l) mstl3_free (&l, 0); return false; } if (w.l) mstl3_free (&w.l, 0); w.l = l; return true; }};
    };
    if (op == 1) s.push_back (whole ("ms3_readtracelist", [=] (World &, MS3TraceList **l, const char *p) { return ms3_readtracelist (l, p, NULL, 0, fl, 0); }));
    if (op == 2) s.push_back (whole ("ms3_readtracelist_timewin", [=] (World &, MS3TraceList **l, const char *p) { return ms3_readtracelist_timewin (l, p, NULL, T0 + 31 * NS1, NSTUNSET, 1, fl, 0); }));
    if (op == 3) s.push_back (whole ("mstl3_readbuffer", [=] (World &w, MS3TraceList **l, const char *) { int64_t n = mstl3_readbuffer (l, w.buf (all), all.size (), 0, fl, NULL, 0); return n == 3 ? 0 : n < 0 ? -1 : 1; }));
    if (op == 4) { s.push_back ({"ms3_addselect", true, [=] (World &w) { return ms3_addselect (&w.sel, "*STA*", NSTUNSET, T0 + 40 * NS1, 0) == 0; }}); s.push_back (whole ("mstl3_readbuffer_selection", [=] (World &w, MS3TraceList **l, const char *) { int64_t n = mstl3_readbuffer_selection (l, w.buf (all), all.size (), 1, fl, NULL, w.sel, 0); return n < 0 ? -1 : 0; })); }
    if (op == 5) s.push_back ({"ms3_readmsr", false, [=] (World &w) { bytes p = w.dir.at ("in"), o; spill (p, all); MS3Record *m = NULL; int rc; while ((rc = ms3_readmsr (&m, p.c_str (), fl, 0)) == 0) o += dump (m); ms3_readmsr (&m, NULL, 0, 0); if (m) fail ("record not released"); if (rc != MS_ENDOFFILE) return false; w.out += o; return true; }});
    if (op == 7)
    {
      s.push_back ({"ms3_mstl_init_fd", true, [=] (World &w) { bytes p = w.dir.at ("in"); spill (p, all); int fd = open (p.c_str (), O_RDONLY); w.fp = ms3_mstl_init_fd (fd); if (!w.fp) close (fd); return w.fp != NULL; }});
      for (int i = 0; i < 4; i++) s.push_back ({"ms3_readmsr_r", false, [=] (World &w) { int rc = ms3_readmsr_r (&w.fp, &w.m[0], "descriptor", fl, 0); if (rc == (i < 3 ? MS_NOERROR : MS_ENDOFFILE)) { w.out += dump (w.m[0]); return true; } return false; }});
    }
    if (op == 6) s.push_back ({"ms3_readmsr_selection", false, [=] (World &w) { bytes p = w.dir.at ("in"), o; spill (p, all); MS3Selections *sel = NULL; if (ms3_addselect (&sel, "*STA*", T0 + 30 * NS1, NSTUNSET, 0)) return false; MS3Record *m = NULL; MS3FileParam *q = NULL; int rc; while ((rc = ms3_readmsr_selection (&q, &m, p.c_str (), fl, sel, 0)) == 0) o += dump (m); ms3_readmsr_selection (&q, &m, NULL, 0, NULL, 0); ms3_freeselections (sel); if (m || q) fail ("state not released"); if (rc != MS_ENDOFFILE) return false; w.out += o; return true; }});
    if (op >= 1 && op <= 4 && !unpack) s.push_back ({"mstl3_unpack_recordlist", false, [=] (World &w) {
      for (MS3TraceID *id = w.l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next)
      {
        if (g->datasamples) continue;
        bytes before = dump (w.l);
        int64_t n = mstl3_unpack_recordlist (id, g, NULL, 0, 0);
        if (n < 0) { if (dump (w.l) != before) fail ("a failed mstl3_unpack_recordlist changed the list"); return false; }
        if (n != g->samplecnt) fail ("%lld samples decoded of %lld", (long long)n, (long long)g->samplecnt);
      }
      return true; }});
    explore (c, s, PAT);
  }, "files of three records in pairs of forms read by every reader, as samples and as record lists decoded afterwards"});

  // ---- selections
  cfg.scenarios.push_back ({"selections", [=] (Ctx &c) {
    libmseed_prealloc_block_size = 0; int n = th ? 4 : 3; Script s;
    for (int i = 0; i < n; i++)
    {
      int k = c.pick (6);
      if (k < 4) s.push_back ({"ms3_addselect", true, [=] (World &w) { return ms3_addselect (&w.sel, k & 1 ? "FDSN:XX*" : "FDSN:YY*", k & 2 ? T0 + i * NS1 : NSTUNSET, NSTUNSET, k == 3 ? 2 : 0) == 0; }});
      if (k == 4) s.push_back ({"ms3_addselect_comp", true, [=] (World &w) { return ms3_addselect_comp (&w.sel, (char *)"XX", (char *)"*", NULL, (char *)"BHZ", NSTUNSET, T0, 0) == 0; }});
      if (k == 5) s.push_back ({"ms3_readselectionsfile", false, [=] (World &w) {
        bytes p = w.dir.at ("sel"), t = "FDSN:XX_A*\nFDSN:XX_B* 2020-01-01 2020-01-02 1\nXX STA 00 BHZ\n"; spill (p, t);
        MS3Selections *q = NULL; int r = ms3_readselectionsfile (&q, p.c_str ());
        if (r == 3) { w.out += dump (q); if (q) ms3_freeselections (q); return true; }
        if (q) ms3_freeselections (q);
        if (r >= 0) fail ("%d of 3 selections read and no failure reported", r);
        return false; }});
    }
    explore (c, s, PAT);
  }, "every sequence of 3 (thorough 4) additions of 6 kinds incl. selection files"});

  // ---- leap seconds and messages
  cfg.scenarios.push_back ({"leapseconds", [=] (Ctx &c) {
    libmseed_prealloc_block_size = 0; int n = c.pick (4); bool env = c.flip (), twice = c.flip (); Script s;
    for (int i = 0; i <= twice; i++)
    s.push_back ({"reading a leap second list", false, [=] (World &w) {
      bytes p = w.dir.at ("leap"), t = "# list\n"; for (int j = 0; j < n; j++) t += fmt ("%lld %d # x\n", 2272060800LL + j * 31536000LL, 10 + j); spill (p, t);
      int r;
      if (env) { setenv ("P21_LEAP", p.c_str (), 1); r = ms_readleapseconds ("P21_LEAP"); unsetenv ("P21_LEAP"); } else r = ms_readleapsecondfile (p.c_str ());
      if (r == n) { w.out += fmt ("%lld;", (long long)ms_sampletime (63072000LL * NS1 - 5 * NS1, 10, 1.0)); return true; }
      if (r >= 0) fail ("%d leap seconds of %d read and no failure reported", r, n);
      return false; }});
    explore (c, s, PAT);
  }, "leap second files of 0 to 3 entries, named directly and by the environment, read once and twice"});
  cfg.scenarios.push_back ({"messages", [=] (Ctx &c) {
    libmseed_prealloc_block_size = 0; int n = th ? 5 : 4; Script s;
    s.push_back ({"ms_rloginit_l", false, [=] (World &w) { return (w.lp = ms_rloginit_l (NULL, log_sink, "L:", log_esink, "E:", 2)) != NULL; }});
    for (int i = 0; i < n; i++)
    {
      int k = c.pick (4);
      if (k < 2) s.push_back ({"ms_rlog_l", true, [=] (World &w) { return ms_rlog_l (w.lp, k ? "fn" : NULL, k ? 2 : 1, "message %d\n", i) >= 0; }});
      if (k == 2) s.push_back ({"ms_rlog_emit", false, [=] (World &w) { bool keep = log ().keep; log ().keep = true; log ().all.clear (); int r = ms_rlog_emit (w.lp, 1, 1); for (auto &m : log ().all) w.out += m; log ().keep = keep; return r >= 0; }});
      if (k == 3) s.push_back ({"ms_rlog_free", false, [=] (World &w) { ms_rlog_free (w.lp); return true; }});
    }
    s.push_back ({"ms_rlog_emit", false, [=] (World &w) { bool keep = log ().keep; log ().keep = true; log ().all.clear (); int r = ms_rlog_emit (w.lp, 0, 0); for (auto &m : log ().all) w.out += m; log ().keep = keep; return r >= 0; }});
    explore (c, s, PAT);
  }, "every history of 4 (thorough 5) of logging, emitting and freeing with a registry of two messages"});

  // ---- writing records to files
  cfg.scenarios.push_back ({"writing", [=] (Ctx &c) {
    prealloc (c); int f = c.pick (NFORM), v = c.pick (2), over = c.pick (2); bytes b = form (f, rec (1, 60, 0));
    Script s;
    s.push_back ({"msr3_parse", false, [=] (World &w) { return msr3_parse (w.buf (b), b.size (), &w.m[0], MSF_UNPACKDATA, 0) == 0; }});
    s.push_back ({"msr3_writemseed", true, [=] (World &w) {
      bytes p = w.dir.at ("w"), old = form (F3I, rec (9, 3, 0)); spill (p, old); int keep = w.m[0]->reclen; w.m[0]->reclen = 1024;
      int64_t n = msr3_writemseed (w.m[0], p.c_str (), over, MSF_FLUSHDATA | (v ? MSF_PACKVER2 : 0), 0); w.m[0]->reclen = keep;
      if (n < 0) { if (!over && slurp (p).substr (0, old.size ()) != old) fail ("earlier content of the file is damaged"); return false; }
      w.out += fmt ("%lld;", (long long)n) + slurp (p); return true; }});
    explore (c, s, PAT);
  }, "every record form written in both versions to new and existing files"});

  return mc::run (argc, argv, cfg);
}
