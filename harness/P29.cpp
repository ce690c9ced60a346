// P29: calls with absent arguments and absent parts are refused with an error or, where optional, act as if the part was not asked for.
#include "ref.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace ref;
using mc::Ctx; using mc::fail; using mc::fmt; using mc::Hash;
typedef unsigned Mask; // bit i: argument i is given

static bytes rec3 (bool le = true)
{
  Rec3 x; x.sid = "FDSN:XX_STA_00_H_H_Z"; x.settime (1577836800LL * 1000000000LL); x.samprate = 1; x.numsamples = 5; x.encoding = 3; x.extra = "{\"a\":1}";
  x.data = enc_plain (3, {1, 2, 3, 4, 5}, false); return x.build ();
}
static bytes rec2 () { Rec2 r; r.big = true; r.reclen = 256; r.factor = 1; r.mult = 1; r.numsamples = 5; r.data = enc_plain (3, {1, 2, 3, 4, 5}, true); r.blks.push_back (r.b1000 (3, 1, 8)); bytes b = r.build (); b.resize (256, 0); return b; }

struct Tmp { char d[64]; Tmp () { strcpy (d, "/tmp/p29-XXXXXX"); if (!mkdtemp (d)) fail ("scratch directory"); } bytes at (const char *n) const { return bytes (d) + "/" + n; }
  ~Tmp () { for (auto n : {"in", "out", "sel", "leap"}) unlink (at (n).c_str ()); rmdir (d); } };
static void spill (const bytes &p, const bytes &v) { FILE *f = fopen (p.c_str (), "wb"); if (!f) fail ("scratch file"); fwrite (v.data (), 1, v.size (), f); fclose (f); }
static int lowfd () { int f = open ("/dev/null", O_RDONLY); close (f); return f; }

// The world a call acts on: built anew for every call, all of it released afterwards
struct W
{
  Buf r3, r2; MS3Record *m = NULL; MS3TraceList *l = NULL; MS3TraceID *id = NULL; MS3TraceSeg *seg = NULL; MS3Selections *sel = NULL; LM_PARSED_JSON *st = NULL;
  MS3Tolerance tol; Tmp dir; bytes in, out, selfile, leap; Packed pk;
  W () : r3 (rec3 ()), r2 (rec2 ())
  {
    memset (&tol, 0, sizeof tol);
    in = dir.at ("in"); out = dir.at ("out"); selfile = dir.at ("sel"); leap = dir.at ("leap");
    spill (in, bytes ((char *)r3.p, r3.n)); spill (selfile, "FDSN:XX_*\n"); spill (leap, "#@\t3900000000\n2272060800\t10\n");
    if (msr3_parse (r3.p, r3.n, &m, MSF_UNPACKDATA, 0)) fail ("record");
    if (mstl3_readbuffer (&l, r3.p, r3.n, 0, MSF_RECORDLIST, NULL, 0) != 1) fail ("list");
    id = l->traces.next[0]; seg = id->first;
    if (ms3_addselect (&sel, "FDSN:XX_*", NSTUNSET, NSTUNSET, 0)) fail ("selection");
    log ().errors = 0; log ().count = 0;
  }
  ~W () { if (l) mstl3_free (&l, 0); if (m) msr3_free (&m); if (sel) ms3_freeselections (sel); if (st) mseh_free_parsestate (&st); }
};
// what is observed of a call: FAILED for the documented error value, otherwise the value and what it produced
static const char *FAILED = "error";
struct Call { const char *name; int n; Mask req; std::function<bytes (W &, Mask)> run; bool quiet; }; // quiet: an error needs no message
static bytes E (int64_t rv, const bytes &more = "") { return rv < 0 ? bytes (FAILED) : fmt ("%lld ", (long long)rv) + more; }
template <class T> static bytes P (T *p, const bytes &more = "") { return p ? "given " + more : bytes (FAILED); }
static nstime_t t0_ () { return 1577836800LL * 1000000000LL; }
static bytes T (nstime_t t) { return t == NSTERROR ? bytes (FAILED) : fmt ("%lld", (long long)t); }
#define A(i, x) (k >> (i) & 1 ? (x) : NULL)
static bytes listing (MS3TraceList *l) { if (!l) return "none"; bytes o; for (MS3TraceID *i = l->traces.next[0]; i; i = i->next[0]) { o += fmt ("%s:", i->sid); for (MS3TraceSeg *s = i->first; s; s = s->next) o += fmt (" %lld+%lld,%lld", (long long)s->starttime, (long long)s->samplecnt, (long long)s->numsamples); } return o; }

static std::vector<Call> calls ()
{
  std::vector<Call> c;
  const nstime_t t0 = 1577836800LL * 1000000000LL + 123456789;
  auto add = [&] (const char *n, int na, Mask req, std::function<bytes (W &, Mask)> f, bool quiet = false) { c.push_back ({n, na, req, f, quiet}); };
  // --- times
  add ("ms_nstime2time", 6, 0, [=] (W &, Mask k) { uint16_t y = 2020, d = 1; uint8_t h = 0, m = 0, s = 0; uint32_t n = 123456789; bytes r = E (ms_nstime2time (t0, A (0, &y), A (1, &d), A (2, &h), A (3, &m), A (4, &s), A (5, &n))); return r + fmt ("%d %d %d %d %d %u", y, d, h, m, s, n); });
  add ("ms_nstime2timestr", 1, 1, [=] (W &, Mask k) { char b[64]; return P (ms_nstime2timestr (t0, A (0, b), ISOMONTHDAY, NANO)); }, true);
  add ("ms_nstime2timestrz", 1, 1, [=] (W &, Mask k) { char b[64]; return P (ms_nstime2timestrz (t0, A (0, b), ISOMONTHDAY, NANO)); }, true);
  add ("ms_timestr2nstime", 1, 1, [] (W &, Mask k) { return T (ms_timestr2nstime (A (0, "2020-01-01"))); });
  add ("ms_mdtimestr2nstime", 1, 1, [] (W &, Mask k) { return T (ms_mdtimestr2nstime (A (0, "2020-01-01"))); });
  add ("ms_seedtimestr2nstime", 1, 1, [] (W &, Mask k) { return T (ms_seedtimestr2nstime (A (0, "2020,001"))); });
  add ("ms_doy2md", 2, 3, [] (W &, Mask k) { int m = 7, d = 7; return E (ms_doy2md (2020, 61, A (0, &m), A (1, &d)), fmt ("%d %d", m, d)); });
  add ("ms_md2doy", 1, 1, [] (W &, Mask k) { int y = 7; return E (ms_md2doy (2020, 3, 1, A (0, &y)), fmt ("%d", y)); });
  add ("ms_readleapsecondfile", 1, 1, [] (W &w, Mask k) { LeapSecond *keep = leapsecondlist; leapsecondlist = NULL; int rv = ms_readleapsecondfile (A (0, w.leap.c_str ())); while (leapsecondlist) { LeapSecond *n = leapsecondlist->next; libmseed_memory.free (leapsecondlist); leapsecondlist = n; } leapsecondlist = keep; return E (rv); });
  // --- records
  for (int v : {0, 1}) add (v ? "msr3_parse of version 2" : "msr3_parse", 2, 3, [=] (W &w, Mask k) { MS3Record *m = NULL; Buf &b = v ? w.r2 : w.r3; bytes r = E (msr3_parse (A (0, b.p), b.n, A (1, &m), MSF_UNPACKDATA, 0), m ? fmt ("%lld", (long long)m->numsamples) : ""); if (m) msr3_free (&m); return r; });
  for (int v : {0, 1}) add (v ? "msr3_pack of version 2" : "msr3_pack", 4, 3, [=] (W &w, Mask k) { int64_t n = 5; w.pk.recs.clear (); w.m->reclen = 512;
    auto h = [] (char *r, int l, void *d) { if (d) pack_handler (r, l, d); }; bytes r = E (msr3_pack (A (0, w.m), A (1, (void (*) (char *, int, void *))h), A (2, &w.pk), A (3, &n), MSF_FLUSHDATA | (v ? MSF_PACKVER2 : 0), 0), fmt ("%lld", (long long)n));
    if (r == FAILED && w.pk.recs.size ()) fail ("a record was emitted by a refused call"); return r; });
  add ("msr3_repack_mseed3", 2, 3, [] (W &w, Mask k) { char b[1024]; return E (msr3_repack_mseed3 (A (0, w.m), A (1, b), sizeof b, 0)); });
  add ("msr3_pack_header3", 2, 3, [] (W &w, Mask k) { char b[1024]; return E (msr3_pack_header3 (A (0, w.m), A (1, b), sizeof b, 0)); });
  add ("msr3_pack_header2", 2, 3, [] (W &w, Mask k) { char b[1024]; w.m->reclen = 512; return E (msr3_pack_header2 (A (0, w.m), A (1, b), sizeof b, 0)); });
  add ("msr3_unpack_data", 1, 1, [] (W &w, Mask k) { return E (msr3_unpack_data (A (0, w.m), 0)); });
  add ("msr3_data_bounds", 3, 7, [] (W &w, Mask k) { uint32_t o = 0, s = 0; return E (msr3_data_bounds (A (0, w.m), A (1, &o), A (2, &s)), fmt ("%u %u", o, s)); });
  add ("ms_decode_data", 3, 7, [] (W &w, Mask k) { char t = 0; bytes in = enc_plain (3, {1, 2}, true); Buf i (in); int32_t o[2] = {0}; return E (ms_decode_data (A (0, i.p), 8, 3, 2, A (1, o), 8, A (2, &t), 1, "id", 0), fmt ("%d %d", o[0], o[1])); });
  add ("ms_decode_data without identifier", 1, 0, [] (W &w, Mask k) { char t = 0; bytes in = enc_plain (3, {1, 2}, true); Buf i (in); int32_t o[2] = {0}; return E (ms_decode_data (i.p, 8, 3, 2, o, 8, &t, 1, A (0, "id"), 0), fmt ("%d %d", o[0], o[1])); });
  add ("msr3_init", 1, 0, [] (W &w, Mask k) { MS3Record *m = msr3_init (A (0, w.m)); if (!m) return bytes (FAILED); if (m == w.m) w.m = NULL; bytes r = fmt ("%d %lld %d", m->reclen, (long long)m->numsamples, m->encoding); msr3_free (&m); if (m) fail ("pointer kept"); return r; });
  add ("msr3_free", 1, 0, [] (W &w, Mask k) { msr3_free (A (0, &w.m)); if ((k & 1) && w.m) fail ("pointer kept"); MS3Record *none = NULL; msr3_free (&none); return bytes ("released"); });
  add ("msr3_duplicate", 1, 1, [] (W &w, Mask k) { MS3Record *d = msr3_duplicate (A (0, w.m), 1); bytes r = P (d); if (d) msr3_free (&d); return r; });
  add ("msr3_endtime", 1, 1, [] (W &w, Mask k) { return T (msr3_endtime (A (0, w.m))); }, true);
  add ("msr3_resize_buffer", 1, 1, [] (W &w, Mask k) { return E (msr3_resize_buffer (A (0, w.m))); });
  add ("msr3_sampratehz", 1, 1, [] (W &w, Mask k) { double r = msr3_sampratehz (A (0, w.m)); return r == 0 ? bytes (FAILED) : fmt ("%g", r); }, true);
  add ("msr3_nsperiod", 1, 1, [] (W &w, Mask k) { nstime_t r = msr3_nsperiod (A (0, w.m)); return r <= 0 ? bytes (FAILED) : fmt ("%lld", (long long)r); }, true);
  add ("msr3_host_latency", 1, 1, [] (W &w, Mask k) { return msr3_host_latency (A (0, w.m)) == 0.0 ? bytes (FAILED) : bytes ("some"); }, true);
  add ("msr3_print", 1, 0, [] (W &w, Mask k) { msr3_print (A (0, w.m), 1); return bytes ("done"); });
  add ("ms3_detect", 2, 3, [] (W &w, Mask k) { uint8_t v = 0; return E (ms3_detect (A (0, w.r3.p), w.r3.n, A (1, &v)), fmt ("%d", v)); });
  add ("ms_parse_raw3", 1, 1, [] (W &w, Mask k) { int e = ms_parse_raw3 (A (0, w.r3.p), w.r3.n, 1); return e ? bytes (FAILED) : bytes ("fine"); });
  add ("ms_parse_raw2", 1, 1, [] (W &w, Mask k) { int e = ms_parse_raw2 (A (0, w.r2.p), w.r2.n, 1, -1); return e ? bytes (FAILED) : bytes ("fine"); });
  add ("ms_encoding_sizetype", 2, 0, [] (W &w, Mask k) { uint8_t s = 4; char t = 'i'; return E (ms_encoding_sizetype (3, A (0, &s), A (1, &t)), fmt ("%d %c", s, t)); });
  add ("ms_crc32c", 1, 0, [] (W &w, Mask k) { return fmt ("%u", ms_crc32c (A (0, (uint8_t *)"x"), 0, 17)); });
  // --- identifiers and strings
  add ("ms_sid2nslc", 1, 1, [] (W &, Mask k) { char n[11], s[11], l[11], c[11]; return E (ms_sid2nslc (A (0, "FDSN:XX_STA_00_H_H_Z"), n, s, l, c)); });
  add ("ms_sid2nslc outputs", 4, 0, [] (W &, Mask k) { char n[11] = "XX", s[11] = "STA", l[11] = "00", c[11] = "HHZ"; bytes r = E (ms_sid2nslc ("FDSN:XX_STA_00_H_H_Z", A (0, n), A (1, s), A (2, l), A (3, c))); return r + n + s + l + c; });
  add ("ms_nslc2sid", 4, 15, [] (W &, Mask k) { char o[64] = ""; return E (ms_nslc2sid (A (0, o), sizeof o, 0, A (1, "XX"), A (2, "STA"), "00", A (3, "HHZ")), o); });
  add ("ms_nslc2sid without location", 1, 0, [] (W &, Mask k) { char o[64] = ""; return E (ms_nslc2sid (o, sizeof o, 0, "XX", "STA", A (0, ""), "HHZ"), o); });
  add ("ms_seedchan2xchan", 2, 3, [] (W &, Mask k) { char o[8] = ""; return E (ms_seedchan2xchan (A (0, o), A (1, "HHZ")), o); }, true);
  add ("ms_xchan2seedchan", 2, 2, [] (W &, Mask k) { char o[8] = "HHZ"; return E (ms_xchan2seedchan (A (0, o), A (1, "H_H_Z")), o); }, true);
  // nothing is copied without a destination; an absent source copies as an empty one
  for (int f = 0; f < 3; f++) add (f == 0 ? "ms_strncpclean" : f == 1 ? "ms_strncpcleantail" : "ms_strncpopen", 2, 0, [=] (W &, Mask k) {
    auto fn = f == 0 ? ms_strncpclean : f == 1 ? ms_strncpcleantail : ms_strncpopen; char o[8] = "xxxxxxx"; int r = fn (A (0, o), A (1, " a "), 4);
    bytes got ((k & 1) ? o : ""); if (f == 2 && (k & 1)) { if (got.compare (4, 4, "xxx")) fail ("ms_strncpopen writes beyond the length"); got.resize (4); } if (!(k & 1)) { if (r) fail ("%d characters copied to nowhere", r); } else if (!(k & 2)) { if (r || got != bytes (f == 2 ? "    " : "")) fail ("absent source copied as '%s', %d", got.c_str (), r); }
    else if (got != bytes (f == 0 ? "a" : f == 1 ? " a" : " a  ")) fail ("copied as '%s'", got.c_str ()); return bytes ("done"); });
  // --- selections
  add ("ms3_matchselect", 3, 3, [] (W &w, Mask k) { const MS3SelectTime *t = NULL; return P (ms3_matchselect (A (0, w.sel), A (1, "FDSN:XX_A_B_C_D_E"), t0_ (), t0_ (), 1, A (2, &t))); }, true);
  add ("msr3_matchselect", 3, 3, [] (W &w, Mask k) { const MS3SelectTime *t = NULL; return P (msr3_matchselect (A (0, w.sel), A (1, w.m), A (2, &t))); }, true);
  add ("ms3_addselect", 2, 3, [] (W &w, Mask k) { return E (ms3_addselect (A (0, &w.sel), A (1, "FDSN:YY_*"), NSTUNSET, NSTUNSET, 0)); });
  add ("ms3_addselect_comp", 1, 1, [] (W &w, Mask k) { return E (ms3_addselect_comp (A (0, &w.sel), (char *)"YY", (char *)"S", (char *)"00", (char *)"HHZ", NSTUNSET, NSTUNSET, 0)); });
  add ("ms3_addselect_comp codes", 4, 0, [] (W &w, Mask k) { MS3Selections *s = NULL; bytes r = E (ms3_addselect_comp (&s, A (0, (char *)"*"), A (1, (char *)"*"), A (2, (char *)"*"), A (3, (char *)"*"), NSTUNSET, NSTUNSET, 0)); r += ms3_matchselect (s, "FDSN:XX_STA_00_H_H_Z", 0, 0, 0, NULL) ? " matches" : " no match"; ms3_freeselections (s); return r; });
  add ("ms3_readselectionsfile", 2, 3, [] (W &w, Mask k) { return E (ms3_readselectionsfile (A (0, &w.sel), A (1, w.selfile.c_str ()))); });
  add ("ms3_freeselections", 1, 0, [] (W &w, Mask k) { ms3_freeselections (A (0, w.sel)); if (k & 1) w.sel = NULL; return bytes ("done"); });
  add ("ms3_printselections", 1, 0, [] (W &w, Mask k) { ms3_printselections (A (0, w.sel)); return bytes ("done"); });
  // --- trace lists
  add ("mstl3_init", 1, 0, [] (W &w, Mask k) { MS3TraceList *l = mstl3_init (A (0, w.l)); if (!l) return bytes (FAILED); if (k & 1) w.l = NULL; bytes r = fmt ("%u", l->numtraceids); mstl3_free (&l, 0); return r; });
  add ("mstl3_free", 1, 0, [] (W &w, Mask k) { mstl3_free (A (0, &w.l), 0); if ((k & 1) && w.l) fail ("pointer kept"); MS3TraceList *none = NULL; mstl3_free (&none, 1); return bytes ("done"); });
  add ("mstl3_findID", 3, 3, [] (W &w, Mask k) { MS3TraceID *prev[MSTRACEID_SKIPLIST_HEIGHT]; return P (mstl3_findID (A (0, w.l), A (1, w.m->sid), 0, A (2, prev))); });
  add ("mstl3_addmsr_recordptr", 4, 3, [] (W &w, Mask k) { MS3RecordPtr *rp = NULL; w.m->starttime += 1000000000000LL; MS3TraceSeg *s = mstl3_addmsr_recordptr (A (0, w.l), A (1, w.m), A (2, &rp), 0, 1, 0, A (3, &w.tol)); bytes r = P (s, listing (w.l)); if (s && (k & 4) && !rp) fail ("record not listed"); if (!s && rp) fail ("record listed by a refused call"); return r; });
  add ("mstl3_readbuffer", 3, 3, [] (W &w, Mask k) { MS3TraceList *l = NULL; bytes r = E (mstl3_readbuffer (A (0, &l), A (1, w.r3.p), w.r3.n, 0, 0, A (2, &w.tol), 0)); if (r != FAILED) r += listing (l); if (l) mstl3_free (&l, 0); return r; });
  add ("mstl3_readbuffer_selection", 4, 3, [] (W &w, Mask k) { MS3TraceList *l = NULL; bytes r = E (mstl3_readbuffer_selection (A (0, &l), A (1, w.r3.p), w.r3.n, 0, 0, A (2, &w.tol), A (3, w.sel), 0)); if (r != FAILED) r += listing (l); if (l) mstl3_free (&l, 0); return r; });
  add ("mstl3_unpack_recordlist", 3, 3, [] (W &w, Mask k) { int32_t o[5]; return E (mstl3_unpack_recordlist (A (0, w.id), A (1, w.seg), A (2, o), sizeof o, 0)); });
  add ("mstl3_convertsamples", 1, 1, [] (W &w, Mask k) { mstl3_unpack_recordlist (w.id, w.seg, NULL, 0, 0); return E (mstl3_convertsamples (A (0, w.seg), 'd', 0)); });
  add ("mstl3_resize_buffers", 1, 1, [] (W &w, Mask k) { return E (mstl3_resize_buffers (A (0, w.l))); });
  for (int v : {0, 1}) add (v ? "mstl3_pack of version 2" : "mstl3_pack", 5, 3, [=] (W &w, Mask k) { mstl3_unpack_recordlist (w.id, w.seg, NULL, 0, 0); int64_t n = 5; auto h = [] (char *r, int l, void *d) { if (d) pack_handler (r, l, d); };
    bytes r = E (mstl3_pack (A (0, w.l), A (1, (void (*) (char *, int, void *))h), A (2, &w.pk), 512, 3, A (3, &n), MSF_FLUSHDATA | (v ? MSF_PACKVER2 : 0), 0, A (4, (char *)"{\"x\":1}")), fmt ("%lld %s", (long long)n, listing (w.l).c_str ()));
    if (r == FAILED && (w.pk.recs.size () || w.seg->numsamples != 5)) fail ("a refused call emitted records or took samples"); return r; });
  add ("mstl3_printtracelist", 1, 0, [] (W &w, Mask k) { mstl3_printtracelist (A (0, w.l), ISOMONTHDAY, 1, 1, 1); return bytes ("done"); });
  add ("mstl3_printsynclist", 2, 0, [] (W &w, Mask k) { mstl3_printsynclist (A (0, w.l), A (1, "DC"), NANO); return bytes ("done"); });
  add ("mstl3_printgaplist", 3, 0, [] (W &w, Mask k) { double g = 1, h = 2; mstl3_printgaplist (A (0, w.l), ISOMONTHDAY, A (1, &g), A (2, &h)); return bytes ("done"); });
  // --- files
  add ("ms3_readmsr", 1, 1, [] (W &w, Mask k) { MS3Record *m = NULL; bytes r = E (ms3_readmsr (A (0, &m), w.in.c_str (), 0, 0)); ms3_readmsr (&m, NULL, 0, 0); if (m) msr3_free (&m); return r; }, true);
  add ("ms3_readmsr_r", 2, 3, [] (W &w, Mask k) { MS3FileParam *f = NULL; MS3Record *m = NULL; bytes r = E (ms3_readmsr_r (A (0, &f), A (1, &m), w.in.c_str (), 0, 0)); ms3_readmsr_r (&f, &m, NULL, 0, 0); if (m) msr3_free (&m); if (f) fail ("a stream is kept"); return r; }, true);
  add ("ms3_readmsr_selection", 3, 3, [] (W &w, Mask k) { MS3FileParam *f = NULL; MS3Record *m = NULL; bytes r = E (ms3_readmsr_selection (A (0, &f), A (1, &m), w.in.c_str (), 0, A (2, w.sel), 0)); ms3_readmsr_selection (&f, &m, NULL, 0, NULL, 0); if (m) msr3_free (&m); if (f) fail ("a stream is kept"); return r; }, true);
  add ("ms3_readtracelist", 3, 3, [] (W &w, Mask k) { MS3TraceList *l = NULL; bytes r = E (ms3_readtracelist (A (0, &l), A (1, w.in.c_str ()), A (2, &w.tol), 0, 0, 0)); if (r != FAILED) r += listing (l); if (l) mstl3_free (&l, 0); return r; });
  add ("ms3_readtracelist_timewin", 3, 3, [] (W &w, Mask k) { MS3TraceList *l = NULL; bytes r = E (ms3_readtracelist_timewin (A (0, &l), A (1, w.in.c_str ()), A (2, &w.tol), NSTUNSET, NSTUNSET, 0, 0, 0)); if (r != FAILED) r += listing (l); if (l) mstl3_free (&l, 0); return r; });
  add ("ms3_readtracelist_selection", 4, 3, [] (W &w, Mask k) { MS3TraceList *l = NULL; bytes r = E (ms3_readtracelist_selection (A (0, &l), A (1, w.in.c_str ()), A (2, &w.tol), A (3, w.sel), 0, 0, 0)); if (r != FAILED) r += listing (l); if (l) mstl3_free (&l, 0); return r; });
  add ("msr3_writemseed", 2, 3, [] (W &w, Mask k) { w.m->reclen = 512; bytes r = E (msr3_writemseed (A (0, w.m), A (1, w.out.c_str ()), 1, MSF_FLUSHDATA, 0)); if (r == FAILED && !access (w.out.c_str (), F_OK)) fail ("a file was written by a refused call"); return r; });
  add ("mstl3_writemseed", 2, 3, [] (W &w, Mask k) { mstl3_unpack_recordlist (w.id, w.seg, NULL, 0, 0); bytes r = E (mstl3_writemseed (A (0, w.l), A (1, w.out.c_str ()), 1, 512, 3, MSF_FLUSHDATA, 0)); if (r == FAILED && !access (w.out.c_str (), F_OK)) fail ("a file was written by a refused call"); return r; });
  // --- extra headers
  for (char ty : {'n', 'i', 's', 'b'}) { static char names[4][40]; static int nn = 0; snprintf (names[nn], 40, "mseh_get_ptr_r %c", ty);
    add (names[nn++ % 4], 4, 3, [=] (W &w, Mask k) { bytes js = ty == 's' ? "{\"a\":\"v\"}" : ty == 'b' ? "{\"a\":true}" : "{\"a\":1}"; mseh_replace (w.m, (char *)js.c_str ()); log ().errors = 0; union { double d; int64_t i; char s[16]; int b; } v; memset (&v, 0, sizeof v); int rv = mseh_get_ptr_r (A (0, w.m), A (1, "/a"), A (2, (void *)&v), ty, sizeof v.s, A (3, &w.st)); return rv ? bytes (FAILED) : bytes ("found"); }); }
  add ("mseh_set_ptr_r", 4, 7, [] (W &w, Mask k) { int64_t v = 5; int rv = mseh_set_ptr_r (A (0, w.m), A (1, "/b"), A (2, &v), 'i', A (3, &w.st)); if (!rv && (k & 8)) mseh_serialize (w.m, &w.st); return rv ? bytes (FAILED) : bytes (w.m->extra); });
  add ("mseh_add_event_detection_r", 4, 5, [] (W &w, Mask k) { MSEHEventDetection e; memset (&e, 0, sizeof e); strcpy (e.type, "GENERIC"); e.onsettime = t0_ (); e.medsnr[0] = 1; int rv = mseh_add_event_detection_r (A (0, w.m), A (1, "/FDSN/Event/Detection"), A (2, &e), A (3, &w.st)); if (!rv && (k & 8)) mseh_serialize (w.m, &w.st); return rv ? bytes (FAILED) : bytes (w.m->extra); });
  add ("mseh_add_calibration_r", 4, 5, [] (W &w, Mask k) { MSEHCalibration e; memset (&e, 0, sizeof e); strcpy (e.type, "STEP"); e.begintime = t0_ (); e.endtime = NSTERROR; int rv = mseh_add_calibration_r (A (0, w.m), A (1, "/FDSN/Calibration/Sequence"), A (2, &e), A (3, &w.st)); if (!rv && (k & 8)) mseh_serialize (w.m, &w.st); return rv ? bytes (FAILED) : bytes (w.m->extra); });
  add ("mseh_add_timing_exception_r", 4, 5, [] (W &w, Mask k) { MSEHTimingException e; memset (&e, 0, sizeof e); strcpy (e.type, "MISSING"); e.time = t0_ (); int rv = mseh_add_timing_exception_r (A (0, w.m), A (1, "/FDSN/Time/Exception"), A (2, &e), A (3, &w.st)); if (!rv && (k & 8)) mseh_serialize (w.m, &w.st); return rv ? bytes (FAILED) : bytes (w.m->extra); });
  add ("mseh_add_recenter_r", 4, 5, [] (W &w, Mask k) { MSEHRecenter e; memset (&e, 0, sizeof e); strcpy (e.type, "MASS"); e.begintime = t0_ (); e.endtime = NSTERROR; int rv = mseh_add_recenter_r (A (0, w.m), A (1, "/FDSN/Recenter/Sequence"), A (2, &e), A (3, &w.st)); if (!rv && (k & 8)) mseh_serialize (w.m, &w.st); return rv ? bytes (FAILED) : bytes (w.m->extra); });
  add ("mseh_serialize", 2, 3, [] (W &w, Mask k) { return E (mseh_serialize (A (0, w.m), A (1, &w.st))); }, true);
  add ("mseh_free_parsestate", 1, 0, [] (W &w, Mask k) { double v; mseh_get_ptr_r (w.m, "/a", &v, 'n', 0, &w.st); mseh_free_parsestate (A (0, &w.st)); LM_PARSED_JSON *none = NULL; mseh_free_parsestate (&none); return bytes ("done"); });
  add ("mseh_replace", 1, 1, [] (W &w, Mask k) { return E (mseh_replace (A (0, w.m), (char *)"{}")); }, true);
  add ("mseh_print", 1, 1, [] (W &w, Mask k) { return E (mseh_print (A (0, w.m), 2)); }, true);
  // --- logging
  add ("ms_rlog", 1, 0, [] (W &, Mask k) { return E (ms_rlog (A (0, "f"), 0, "text\n")) == FAILED ? bytes (FAILED) : bytes ("logged"); });
  add ("ms_rlog_l", 2, 0, [] (W &, Mask k) { static MSLogParam lp = {0}; ms_rloginit_l (&lp, log_sink, "", log_esink, "", 0); return E (ms_rlog_l (A (0, &lp), A (1, "f"), 0, "text\n")) == FAILED ? bytes (FAILED) : bytes ("logged"); });
  add ("ms_rloginit_l", 5, 0, [] (W &, Mask k) { MSLogParam own = {0}; MSLogParam *l = ms_rloginit_l (A (0, &own), A (1, log_sink), A (2, ""), A (3, log_esink), A (4, ""), 0); if (!l) return bytes (FAILED); if (l != &own) libmseed_memory.free (l); return bytes ("set"); });
  add ("ms_rlog_emit and free", 1, 0, [] (W &, Mask k) { MSLogParam own = {0}; ms_rloginit_l (&own, log_sink, "", log_esink, "", 5); ms_rlog_l (&own, "f", 1, "kept\n"); int a = ms_rlog_emit (A (0, &own), 0, 0), b = ms_rlog_free (A (0, &own)); ms_rlog_free (&own); return E (a < 0 || b < 0 ? -1 : 0); });
  return c;
}

int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P29";
  cfg.rule = "each call is made with every subset of its pointer arguments; a call lacking a required one returns its error value with a message, leaves everything as it was and releases what it took; a call lacking only optional ones does the same as with all of them";
  cfg.assumptions = {"format strings of messages and pointers inside a caller's structures are given"};
  cfg.scenarios.push_back ({"arguments", [] (Ctx &c) {
    static const std::vector<Call> C = calls ();
    const Call &f = C[c.pick (C.size ())]; Mask k = c.pick (1 << f.n), all = (1 << f.n) - 1;
    MemCheck mk; int low = lowfd (); int devnull = open ("/dev/null", O_WRONLY), keep = dup (1); fflush (stdout); dup2 (devnull, 1); close (devnull);
    bytes full, got; int errors;
    { W w; full = f.run (w, all); }
    { W w; got = f.run (w, k); errors = log ().errors; }
    fflush (stdout); dup2 (keep, 1); close (keep);
    c.step (); c.state (Hash ().s (f.name).s (got)); if (k != all) c.nontriv ();
    bytes miss; for (int i = 0; i < f.n; i++) if (!(k >> i & 1)) miss += fmt (" %d", i);
    if (full == FAILED) fail ("%s fails with all arguments", f.name);
    if (f.req & ~k)
    {
      if (got != FAILED) fail ("%s without pointer argument%s is not refused: %s", f.name, miss.c_str (), got.c_str ());
      if (!f.quiet && !errors) fail ("%s without pointer argument%s is refused without a message", f.name, miss.c_str ());
    }
    else if (got != full) fail ("%s without pointer argument%s gives '%s', with all '%s'", f.name, miss.c_str (), got.c_str (), full.c_str ());
    mk.done (f.name); if (lowfd () != low) fail ("%s: a file is left open", f.name);
  }, "every subset of the pointer arguments of 75 calls"});
  // a record or segment that lacks a part: calls needing it fail, others act as without it
  cfg.scenarios.push_back ({"parts", [] (Ctx &c) {
    enum { NORECORD = 1, NOEXTRA = 2, NODATA = 4 }; int lack = 1 + c.pick (7), op = c.pick (12);
    MemCheck mk; int low = lowfd (); int devnull = open ("/dev/null", O_WRONLY), keep = dup (1); fflush (stdout); dup2 (devnull, 1); close (devnull);
    bytes got, what; bool needs = false;
    {
      W w; MS3Record *m = w.m; MS3Record own = *m; // the parts are put back before releasing
      if (lack & NORECORD) m->record = NULL;
      if (lack & NOEXTRA) { m->extra = NULL; m->extralength = 0; }
      if (lack & NODATA) { m->datasamples = NULL; m->numsamples = 0; m->datasize = 0; }
      char out[1024]; uint32_t o = 0, s = 0; int64_t n = 0; m->reclen = op == 4 ? m->reclen : 512; MS3Record *d = NULL;
      switch (op)
      {
      case 0: what = "msr3_pack"; got = E (msr3_pack (m, pack_handler, &w.pk, &n, MSF_FLUSHDATA, 0)); break;
      case 1: what = "msr3_pack of version 2"; got = E (msr3_pack (m, pack_handler, &w.pk, &n, MSF_FLUSHDATA | MSF_PACKVER2, 0)); break;
      case 2: what = "msr3_repack_mseed3"; needs = lack & NORECORD; got = E (msr3_repack_mseed3 (m, out, sizeof out, 0)); break;
      case 3: what = "msr3_pack_header3"; got = E (msr3_pack_header3 (m, out, sizeof out, 0)); break;
      case 4: what = "msr3_unpack_data"; needs = lack & NORECORD; { void *ds = m->datasamples; got = E (msr3_unpack_data (m, 0)); if (got != FAILED && m->datasamples && m->datasamples != ds && ds == NULL && (lack & NODATA)) { libmseed_memory.free (m->datasamples); } else if (m->datasamples) own.datasamples = m->datasamples; } break;
      case 5: what = "msr3_data_bounds"; needs = lack & NORECORD; got = E (msr3_data_bounds (m, &o, &s)); break;
      case 6: what = "msr3_duplicate"; { d = msr3_duplicate (m, 1); got = P (d); if (d) { if (!!d->extra != !(lack & NOEXTRA) || !!d->datasamples != !(lack & NODATA)) fail ("a copy has other parts"); msr3_free (&d); } } break;
      case 7: what = "msr3_print"; msr3_print (m, 2); mseh_print (m, 1); got = "done"; break;
      case 8: what = "mstl3_addmsr"; { m->starttime += 1000000000000LL; got = P (mstl3_addmsr (w.l, m, 0, 1, 0, NULL)); } break;
      case 9: what = "mseh_get_ptr_r"; needs = lack & NOEXTRA; { double v; got = mseh_get_ptr_r (m, "/a", &v, 'n', 0, NULL) ? bytes (FAILED) : bytes ("found"); } break;
      case 10: what = "mstl3_unpack_recordlist"; { MS3RecordPtr *rp = w.seg->recordlist->first; const char *b = rp->bufferptr; MS3Record *pm = rp->msr; MS3RecordList *rl = w.seg->recordlist; if (lack & NORECORD) rp->bufferptr = NULL; if (lack & NODATA) w.seg->recordlist = NULL; needs = lack & (NORECORD | NODATA); got = E (mstl3_unpack_recordlist (w.id, w.seg, NULL, 0, 0)); rp->bufferptr = b; rp->msr = pm; w.seg->recordlist = rl; } break;
      case 11: what = "mstl3_pack of a segment without samples"; got = E (mstl3_pack (w.l, pack_handler, &w.pk, 512, 3, &n, MSF_FLUSHDATA, 0, NULL)); break;
      }
      if (d) msr3_free (&d);
      own.reclen = m->reclen; *m = own;
      c.step (); c.state (Hash ().s (what).s (got).u (lack));
    }
    fflush (stdout); dup2 (keep, 1); close (keep);
    if (needs && got != FAILED) fail ("%s of a record lacking parts %d is not refused: %s", what.c_str (), lack, got.c_str ());
    mk.done (what.c_str ()); if (lowfd () != low) fail ("%s: a file is left open", what.c_str ());
  }, "12 calls on records and segments lacking every combination of raw record, extra headers and samples"});
  return mc::run (argc, argv, cfg);
}
