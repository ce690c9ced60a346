// P20: threads with work of their own get, under every schedule up to the bound, the results of running alone.
#include "sched.hpp"
#include "world.hpp"
using namespace world;
using sched::Plan;
static thread_local bytes *sinkto = NULL;
static void sink (const char *s) { if (sinkto) *sinkto += bytes ("|") + s; }
static void esink (const char *s) { if (sinkto) *sinkto += bytes ("!") + s; }
struct Sink { bytes &b; Sink (bytes &o) : b (o) { sinkto = &b; ms_rloginit (sink, "", esink, "E:", 0); } ~Sink () { sinkto = NULL; } };
struct Task { const char *name; std::function<void (bytes &)> fn; };
static int forv = 0; static int V () { return sched::me < 0 ? forv : sched::me; } // threads have different work
static R trec (int key, int n, int64_t at) { R r = ::rec (key + V () * 10, n, at); static const char *sid[] = {SID, "FDSN:XY_STBB_01_B_H_N", "FDSN:ZZ_C__L_F_A"}; r.sid = sid[V ()]; r.start += V () * 86400 * 33 * NS1; return r; }
static void collect (char *r, int l, void *h) { *(bytes *)h += "<" + bytes (r, l) + ">"; }
static int32_t val (int i) { return i * (i % 7 - 3) * (11 + V ()); }
static void pack (bytes &o, int enc, char type, uint32_t flags, int n, int reclen, const char *extra)
{
  bytes data; for (int i = 0; i < n; i++) { if (type == 'i') { int32_t v = val (i); data.append ((char *)&v, 4); } else if (type == 'f') { float v = val (i); data.append ((char *)&v, 4); } else { double v = val (i); data.append ((char *)&v, 8); } }
  MS3Record *m = msr3_init (NULL); strcpy (m->sid, trec (0, 0, 0).sid.c_str ()); m->reclen = reclen; m->pubversion = 2 + V (); m->starttime = T0 + 123456789 + V () * 1000000; m->samprate = 20 + V (); m->encoding = enc; m->numsamples = m->samplecnt = n; m->sampletype = type; m->datasamples = (void *)data.data ();
  if (extra) mseh_replace (m, (char *)extra);
  int64_t k = 0; int rc = msr3_pack (m, collect, &o, &k, flags | MSF_FLUSHDATA, 0); o += fmt ("rc %d %lld", rc, (long long)k); m->datasamples = NULL; msr3_free (&m);
}
static void parse (bytes &o, const bytes &given, bool direct = false)
{
  bytes copy; if (!direct) copy = given.substr (0); const bytes &in = direct ? given : copy; MS3Record *m = NULL; int rc = msr3_parse (in.data (), in.size (), &m, MSF_UNPACKDATA | MSF_VALIDATECRC, 0); o += fmt ("rc %d ", rc) + (m ? dump (m) : "none"); uint8_t fv = 0; o += fmt (" detect %d %d", ms3_detect (in.data (), in.size (), &fv), fv); if (m) msr3_print (m, 2); msr3_free (&m);
}
static bytes no_date (bytes s) // the day of printing
{
  time_t now = time (NULL); for (int d = -1; d <= 1; d++) { struct tm t; time_t x = now + d * 86400; localtime_r (&x, &t); bytes day = fmt ("%04d,%03d", t.tm_year + 1900, t.tm_yday + 1); size_t p; while ((p = s.find (day)) != bytes::npos) s.replace (p, day.size (), "DAY"); }
  return s;
}
static bytes scratch; // directory
static std::vector<Task> tasks;
static void define ()
{
  auto T = [] (const char *n, std::function<void (bytes &)> f) { tasks.push_back ({n, f}); };
  static std::vector<bytes> recs[3], whole, f1, f2; static bytes f3;
  for (int v = 0; v < 3; v++)
  {
    forv = v; bytes stream; for (int f = 0; f < NFORM; f++) recs[v].push_back (form (f, trec (f + 1, 40 + v, f * 40)));
    for (int f = 0; f < NFORM; f++) if (f != F3T) stream += recs[v][f];
    whole.push_back (stream); f1.push_back (scratch + fmt ("/stream%d", v)); spill (f1[v], stream);
    f2.push_back (scratch + fmt ("/selections%d", v)); spill (f2[v], v ? fmt ("FDSN:Y?_* %d\nXY STB * LHZ Q\nYY,S 1\n", v) : bytes ("# c\nFDSN:XX_* R\nXX STA 00 HHZ * 2020-01-01 2021-01-01\nbad line of text that is not one\n"));
  }
  forv = 0;
  f3 = scratch + "/out";
  T ("pack Steim-2", [] (bytes &o) { pack (o, 11, 'i', 0, 200, 256, NULL); });
  T ("pack Steim-1 version 2", [] (bytes &o) { pack (o, 10, 'i', MSF_PACKVER2, 100, 256, "{\"FDSN\":{\"Time\":{\"Quality\":50},\"Event\":{\"Detection\":[{\"Type\":\"MURDOCK\",\"SignalAmplitude\":5,\"SignalPeriod\":1,\"BackgroundEstimate\":2,\"Wave\":\"DILATATION\",\"OnsetTime\":\"2020-01-01T00:00:00Z\",\"MEDSNR\":[1,2,3,4,5,6],\"MEDLookback\":2,\"MEDPickAlgorithm\":1,\"Detector\":\"Z\"}]}}}"); });
  T ("pack float", [] (bytes &o) { pack (o, 4, 'f', 0, 90, 256, "{\"a\":1}"); });
  T ("parse version 3 Steim-2", [] (bytes &o) { Sink s (o); parse (o, recs[V ()][F3ST]); });
  T ("parse version 2 with blockettes", [] (bytes &o) { Sink s (o); parse (o, recs[V ()][F2BLK]); });
  T ("parse version 2 little endian", [] (bytes &o) { Sink s (o); parse (o, recs[V ()][F2LE]); });
  T ("parse damaged records", [] (bytes &o) { Sink s (o); for (int f : {F3ST, F2BLK, F2ST}) { bytes b = recs[V ()][f]; b[b.size () / 2] ^= 0x55; b[30] ^= 0x40; parse (o, b); parse (o, b.substr (0, b.size () - 20)); } });
  T ("print raw headers", [] (bytes &o) { Sink s (o); bytes a = recs[V ()][F2BLK], b = recs[V ()][F3X]; o += fmt ("%d", ms_parse_raw2 (&a[0], a.size (), 3, -1)); o += fmt ("%d", ms_parse_raw3 (&b[0], b.size (), 3)); });
  T ("decode other encodings", [] (bytes &o) { Sink s (o); for (int e : {1, 12, 13, 14, 16, 30, 32}) { bytes in; for (int i = 0; i < 48; i++) in += (char)(i * (37 + V () * 2) + e); int32_t out[64]; char type = 0; int64_t n = ms_decode_data (in.data (), in.size (), e, 12, out, sizeof out, &type, 0, SID, 0); o += fmt ("%d:%lld%c", e, (long long)n, type ? type : '-'); if (n > 0) o.append ((char *)out, n * 4); } });
  T ("times", [] (bytes &o) { Sink s (o); static const char *ts[3][6] = {{"2020-02-29T12:34:56.789012345Z", "2016,366,23:59:60", "1600000000.5", "1900-01-01", "2020-13-01", "-1.25"}, {"1988-12-31T23:59:59.000000001Z", "1972,183", "99.000001", "2100-11-30T01", "2021-02-29", "1e5"}, {"2001-01-01", "1999,1,2,3,4", "0.1", "2000-02-29", "x", "-99999999"}}; for (auto t : ts[V ()]) { nstime_t v = ms_timestr2nstime (t); o += fmt ("%lld ", (long long)v); char b[60]; for (int f = 0; f <= NANOSECONDEPOCH; f++) if (v != NSTERROR) o += ms_nstime2timestr (v, b, (ms_timeformat_t)f, NANO_MICRO); } o += fmt ("%lld", (long long)ms_sampletime ((V () ? 1435708780LL : 1483228790LL) * NS1, 15 + V () * 8, 1)); int m, d; ms_doy2md (2024 - V (), 60, &m, &d); o += fmt (" %d %d", m, d); });
  T ("identifiers", [] (bytes &o) { Sink s (o); char n[64], t[64], l[64], c[64], sid[64]; static const char *ss[3][4] = {{"FDSN:XX_STA_00_H_H_Z", "FDSN:YY_ABCDE__BB_SS_X", "XYZ:q", "FDSN:a_b"}, {"FDSN:IU_ANMO_10_L_H_1", "FDSN:_B__H__Z", "FDSN:", "SPM:aa_bb_cc_d_e_f"}, {"FDSN:A_B_C_D_E_F", "FDSN:AA_BB_CC_DD_EE_FF", "", "FDSN:a_b_c_d_e_f_g"}}; for (auto x : ss[V ()]) { n[0] = t[0] = l[0] = c[0] = 0; int rc = ms_sid2nslc (x, n, t, l, c); o += fmt ("%d %s %s %s %s;", rc, n, t, l, c); } o += fmt ("%d", ms_nslc2sid (sid, 64, 0, V () ? "GE" : "IU", V () ? "APE" : "COLA", V () ? "" : "00", V () ? "B_S_T" : "LHZ")); o += sid; char x[20]; ms_seedchan2xchan (x, V () ? "MN1" : "BHZ"); o += x; for (int e = -1; e < 40; e++) { const char *q = ms_encodingstr (e); o += q ? q : "-"; } for (int e = -10; e < 2; e++) { const char *q = ms_errorstr (e); o += q ? q : "-"; } });
  T ("extra headers", [] (bytes &o) { Sink s (o); MS3Record *m = msr3_init (NULL); LM_PARSED_JSON *ps = NULL; for (int i = 0; i < 3; i++) { int64_t v = i * 7 + V (); mseh_set_ptr_r (m, i == 0 ? "/FDSN/Time/Quality" : i == 1 ? "/a/b/c" : "/z", &v, 'i', i == 2 ? NULL : &ps); } double d = 1.5 + V (); mseh_set_ptr_r (m, "/q/r", &d, 'n', &ps); mseh_set_ptr_r (m, "/s", (void *)"{\"x\":[1,2,{\"y\":null}]}", 'M', &ps); MSEHEventDetection e; memset (&e, 0, sizeof e); strcpy (e.type, "MURDOCK"); strcpy (e.detector, "D"); e.signalamplitude = 1 + V (); e.signalperiod = NAN; e.backgroundestimate = NAN; e.onsettime = T0; e.medlookback = e.medpickalgorithm = -1; mseh_add_event_detection_r (m, NULL, &e, &ps); mseh_serialize (m, &ps); mseh_free_parsestate (&ps); o += bytes (m->extra ? m->extra : "", m->extralength); int64_t g = 0; o += fmt ("%d %lld", mseh_get_ptr_r (m, "/a/b/c", &g, 'i', 0, NULL), (long long)g); mseh_print (m, 2); o += fmt ("%d", mseh_replace (m, (char *)"{bad")); msr3_free (&m); });
  T ("trace lists", [] (bytes &o) { Sink s (o); List l; std::vector<R> added; for (int k : {0, 2, 1, 4}) { R r = trec (k + 1, 30, k * 30); added.push_back (r); Msr m (r); MS3TraceSeg *g = mstl3_addmsr (l.l, m.m, 0, 1, 0, NULL); o += g ? "+" : "-"; } o += dump (l.l); int64_t n = 0; o += fmt ("%lld ", (long long)mstl3_pack (l.l, collect, &o, 256, 11, &n, MSF_FLUSHDATA, 0, NULL)); o += dump (l.l); });
  T ("listings", [] (bytes &o) { Sink s (o); List l; for (int k : {0, 2, 1, 4}) { Msr m (trec (k + 1, 30, k * 31)); mstl3_addmsr (l.l, m.m, 1, 1, 0, NULL); } mstl3_printtracelist (l.l, ISOMONTHDAY, 1, 1, 1); mstl3_printgaplist (l.l, SEEDORDINAL, NULL, NULL); mstl3_printsynclist (l.l, V () ? "YY" : "X", MICRO); o = no_date (o); });
  T ("log parameters", [] (bytes &o) { sinkto = &o; ms_rloginit (sink, "A:", esink, "B:", 2); for (int i = 0; i < 4; i++) ms_rlog ("fn", i % 3, "message %d\n", i + V () * 10); o += fmt ("emit %d", ms_rlog_emit (NULL, 0, 1)); MSLogParam *p = ms_rloginit_l (NULL, sink, "C:", esink, "D:", 3); for (int i = 0; i < 4; i++) ms_rlog_l (p, "gn", 2, "more %d\n", i + V () * 10); o += fmt ("emit %d free %d", ms_rlog_emit (p, 2, 0), ms_rlog_free (p)); free (p); sinkto = NULL; });
  T ("default log parameters", [] (bytes &o) { sinkto = &o; ms_loginit (sink, NULL, esink, NULL); MS3Record *m = NULL; char b[100] = "MS\003"; b[30] = V (); o += fmt ("%d", msr3_parse (b, 100, &m, 0, 0)); ms_log (2, "text %s\n", V () ? "y" : "x"); ms_log (0, "out\n"); msr3_free (&m); sinkto = NULL; });
  T ("read a file", [] (bytes &o) { Sink s (o); MS3FileParam *fp = NULL; MS3Record *m = NULL; bytes p = f1[V ()].c_str (); int rc; while ((rc = ms3_readmsr_r (&fp, &m, p.c_str (), MSF_UNPACKDATA, 0)) == 0) o += dump (m); o += fmt ("rc %d", rc); ms3_readmsr_r (&fp, &m, NULL, 0, 0); });
  T ("read a file into a list", [] (bytes &o) { Sink s (o); MS3TraceList *l = NULL; bytes p = f1[V ()].c_str (); o += fmt ("%d", ms3_readtracelist (&l, p.c_str (), NULL, 0, MSF_RECORDLIST, 0)); if (l) for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *g = id->first; g; g = g->next) o += fmt ("u%lld", (long long)mstl3_unpack_recordlist (id, g, NULL, 0, 0)); o += dump (l); mstl3_free (&l, 0); });
  T ("read a buffer with selections", [] (bytes &o) { Sink s (o); MS3Selections *sel = NULL; ms3_addselect (&sel, V () ? "FDSN:XY_*_B_[HN]_N" : "FDSN:XX_*_H_[HN]_Z", T0 + V () * 86400 * 33 * NS1, T0 + (V () * 86400 * 33 + 500) * NS1, 0); ms3_addselect_comp (&sel, (char *)(V () ? "YX" : "YY"), (char *)"S?A", (char *)"--", (char *)"BHZ", NSTUNSET, T0, 2); o += dump (sel); MS3TraceList *l = NULL; bytes b = whole[V ()].substr (0); o += fmt ("%lld", (long long)mstl3_readbuffer_selection (&l, b.data (), b.size (), 0, 0, NULL, sel, 0)); o += dump (l); mstl3_free (&l, 0); ms3_freeselections (sel); });
  T ("read a selection file", [] (bytes &o) { Sink s (o); MS3Selections *sel = NULL; bytes p = f2[V ()].c_str (); o += fmt ("%d", ms3_readselectionsfile (&sel, p.c_str ())); o += dump (sel); ms3_freeselections (sel); });
  T ("write files", [] (bytes &o) { Sink s (o); bytes p = f3 + fmt ("%d.%d", (int)getpid (), sched::me); { Msr m (trec (3, 50, 0)); o += fmt ("%lld", (long long)msr3_writemseed (m.m, p.c_str (), 1, MSF_FLUSHDATA, 0)); } List l; for (int k : {0, 1, 3}) { Msr m (trec (k + 1, 30, k * 30)); mstl3_addmsr (l.l, m.m, 0, 1, 0, NULL); } o += fmt ("%lld", (long long)mstl3_writemseed (l.l, p.c_str (), 0, 256, 11, 0, 0)); o += slurp (p); unlink (p.c_str ()); });
  T ("append structures", [] (bytes &o) { Sink s (o); MS3Record *m = msr3_init (NULL); LM_PARSED_JSON *ps = NULL; nstime_t t = T0 + V () * 86400 * NS1; char tag[20]; snprintf (tag, sizeof tag, "TAG%d", V ());
    MSEHEventDetection e; memset (&e, 0, sizeof e); strcpy (e.type, tag); e.signalperiod = 1 + V (); e.onsettime = t; e.medsnr[V ()] = 7; e.medlookback = e.medpickalgorithm = V (); o += fmt ("%d", mseh_add_event_detection_r (m, NULL, &e, &ps));
    MSEHCalibration k; memset (&k, 0, sizeof k); strcpy (k.type, tag); k.begintime = t + 1; k.endtime = t + 2; k.steps = V (); k.firstpulsepositive = k.alternatesign = k.continued = V () & 1; k.amplitude = 2.5 * (V () + 1); strcpy (k.rolloff, tag); o += fmt ("%d", mseh_add_calibration_r (m, NULL, &k, &ps));
    MSEHTimingException x; memset (&x, 0, sizeof x); x.time = t + 3; x.vcocorrection = V (); x.receptionquality = V (); x.count = V () + 1; strcpy (x.type, tag); strcpy (x.clockstatus, tag); o += fmt ("%d", mseh_add_timing_exception_r (m, NULL, &x, NULL));
    o += fmt ("%d", mseh_serialize (m, &ps)); mseh_free_parsestate (&ps);
    MSEHRecenter z; memset (&z, 0, sizeof z); strcpy (z.type, tag); z.begintime = t + 4; z.endtime = t + 5; strcpy (z.trigger, tag); o += fmt ("%d", mseh_add_recenter_r (m, NULL, &z, NULL));
    o.append (m->extra, m->extralength); bytes r = fmt ("{\"r\":[%d,{\"q\":\"%s\"}]}", V (), tag); o += fmt ("%d", mseh_replace (m, &r[0])); mseh_print (m, 2); msr3_free (&m); });
  T ("calendar", [] (bytes &o) { Sink s (o); for (int k = 0; k < 3; k++) { nstime_t t = T0 + (V () * 40 + k * 397) * 86400LL * NS1 + V () * 1001; uint16_t y = 0, d = 0; uint8_t h = 0, mi = 0, se = 0; uint32_t ns = 0; o += fmt ("%d", ms_nstime2time (t, &y, &d, &h, &mi, &se, &ns)); o += fmt (" %d %d %d:%d:%d.%u %lld", y, d, h, mi, se, ns, (long long)ms_time2nstime (y, d, h, mi, se, ns)); int mo = 0, md = 0, doy = 0; ms_doy2md (y, d, &mo, &md); ms_md2doy (y, mo, md, &doy); o += fmt (" %d-%d %d", mo, md, doy); char b[60], c[60]; o += ms_nstime2timestr (t, b, SEEDORDINAL, NANO); o += ms_nstime2timestr (t, c, ISOMONTHDAY, NANO); o += fmt (" %lld %lld %lld", (long long)ms_seedtimestr2nstime (b), (long long)ms_mdtimestr2nstime (c), (long long)ms_timestr2nstime (c)); }
    static const char *w[3] = {"  a b\tc ", "ZYX   ", " 1 2 3 4 5 6"}; char b[20] = ""; o += fmt ("%d", ms_strncpclean (b, w[V ()], 8)); o += b; o += fmt ("%d", ms_strncpcleantail (b, w[V ()], 6)); o += b; o += fmt ("%d", ms_strncpopen (b, w[V ()], 9)); o += b; char x[20] = ""; ms_xchan2seedchan (x, V () ? "B_H_N" : "L_H_1"); o += x; for (int e = 0; e < 12; e++) { uint8_t z = 0; char ty = 0; o += fmt ("%d", ms_encoding_sizetype (e, &z, &ty)); o += fmt (" %d %c", z, ty ? ty : '-'); } });
  T ("decode after parsing", [] (bytes &o) { Sink s (o); for (int f : {F3ST, F2BLK, F2LE}) { bytes b = recs[V ()][f].substr (0); MS3Record *m = NULL; o += fmt ("%d", msr3_parse (&b[0], b.size (), &m, 0, 0)); if (!m) continue; uint32_t so = 0, sz = 0; o += fmt (" %d %u %u", msr3_data_bounds (m, &so, &sz), so, sz); o += fmt (" %lld", (long long)msr3_unpack_data (m, 0)); o += fmt (" %d", msr3_resize_buffer (m)); o += dump (m); msr3_free (&m); } });
  T ("read ranges and selections", [] (bytes &o) { Sink s (o); MS3FileParam *fp = NULL; MS3Record *m = NULL; int rc; bytes p = f1[V ()] + fmt ("@0-%zu", whole[V ()].size () / 2); MS3Selections *sel = NULL; ms3_addselect (&sel, V () ? "*" : "FDSN:X*", NSTUNSET, NSTUNSET, 0); while ((rc = ms3_readmsr_selection (&fp, &m, p.c_str (), MSF_PNAMERANGE | MSF_SKIPNOTDATA, sel, 0)) == 0) o += fmt ("%s %lld %d;", m->sid, (long long)m->starttime, m->reclen); o += fmt ("rc %d", rc); ms3_readmsr_selection (&fp, &m, NULL, 0, NULL, 0); MS3TraceList *l = NULL; o += fmt (" %d", ms3_readtracelist_timewin (&l, f1[V ()].c_str (), NULL, T0 + 30 * NS1, T0 + 3600 * 24 * 40 * NS1, 1, MSF_UNPACKDATA, 0)); o += dump (l); mstl3_free (&l, 0); ms3_freeselections (sel); });
  T ("convert and copy", [] (bytes &o) { Sink s (o); List l; { Msr m (trec (1, 30, 0)); MS3Record *d = msr3_duplicate (m.m, 1); o += dump (d); MS3TraceSeg *g = mstl3_addmsr (l.l, d, 0, 1, 0, NULL); o += fmt ("%d", mstl3_convertsamples (g, 'd', 0)); msr3_free (&d); } o += dump (l.l); o += fmt ("%d", mstl3_resize_buffers (l.l)); for (auto &r : {recs[V ()][F3ST], recs[V ()][F2ST]}) { bytes a = r.substr (0); MS3Record *m = NULL; if (!msr3_parse (&a[0], a.size (), &m, 0, 0)) { char out[1024]; int n = msr3_repack_mseed3 (m, out, sizeof out, 0); o += fmt ("%d", n) + (n > 0 ? bytes (out, n) : ""); } msr3_free (&m); } o += fmt ("%08x", ms_crc32c ((const uint8_t *)o.data (), o.size (), 0)); });
}
// objects that all threads only read
static struct { MS3Record *m = NULL, *m2 = NULL; MS3TraceList *l = NULL; MS3Selections *sel = NULL; bytes *in3 = NULL, *in2 = NULL; bytes *path = NULL; } sh;
static size_t nown;
static void shared ()
{
  auto T = [] (const char *n, std::function<void (bytes &)> f) { tasks.push_back ({n, f}); };
  nown = tasks.size ();
  sched::make_shared ([] {
    sh.in2 = new bytes (form (F2BLK, rec (2, 40, 40))); sh.in3 = new bytes (form (F3X, rec (1, 30, 0))); msr3_parse (sh.in2->data (), sh.in2->size (), &sh.m2, MSF_UNPACKDATA, 0); msr3_parse (sh.in3->data (), sh.in3->size (), &sh.m, MSF_UNPACKDATA, 0);
    sh.l = mstl3_init (NULL); for (int k : {0, 2, 1, 5}) { R r = rec (k + 1, 30, k * 31); if (k == 1) r.sid = "FDSN:YY_B_00_L_H_Z"; Msr m (r); mstl3_addmsr (sh.l, m.m, 0, 1, 0, NULL); }
    ms3_addselect (&sh.sel, "FDSN:XX_*_H_[HN]_Z", T0 - NS1, T0 + 500 * NS1, 0); ms3_addselect (&sh.sel, "FDSN:YY_?_*Z", NSTUNSET, T0, 2); });
  T ("print a record", [] (bytes &o) { Sink s (o); msr3_print (V () ? sh.m2 : sh.m, 2); msr3_print (sh.m, V ()); o += fmt ("%lld %g %lld", (long long)msr3_endtime (sh.m), msr3_sampratehz (sh.m2), (long long)msr3_nsperiod (sh.m)); });
  T ("copy a record", [] (bytes &o) { Sink s (o); MS3Record *d = msr3_duplicate (sh.m2, V () == 0); o += dump (d); msr3_free (&d); uint32_t a, b; o += fmt ("%d", msr3_data_bounds (sh.m2, &a, &b)) + fmt ("%u %u", a, b); });
  T ("pack a record", [] (bytes &o) { Sink s (o); int64_t n = 0; o += fmt ("%d", msr3_pack (sh.m, collect, &o, &n, (V () ? MSF_PACKVER2 : 0) | MSF_FLUSHDATA, 0)); char b[2048]; int k = msr3_repack_mseed3 (sh.m2, b, sizeof b, 0); o += k > 0 ? bytes (b, k) : "-"; k = msr3_pack_header3 (sh.m2, b, sizeof b, 0); o += k > 0 ? bytes (b, k) : "-"; k = msr3_pack_header2 (sh.m, b, sizeof b, 0); o += k > 0 ? bytes (b, k) : "-"; });
  T ("extra headers of a record", [] (bytes &o) { Sink s (o); int64_t v = 0; LM_PARSED_JSON *p = NULL; o += fmt ("%d", mseh_get_ptr_r (sh.m2, V () ? "/FDSN/Time/Correction" : "/FDSN/Time/Quality", &v, 'i', 0, &p)); o += fmt ("%lld", (long long)v); o += fmt ("%d", mseh_get_ptr_r (sh.m2, "/FDSN/Event", NULL, 0, 0, &p)); mseh_free_parsestate (&p); mseh_print (sh.m2, 3); });
  T ("list of traces", [] (bytes &o) { Sink s (o); mstl3_printtracelist (sh.l, V () ? UNIXEPOCH : ISOMONTHDAY, 1, 1, V ()); o += dump (sh.l); });
  T ("list of gaps and SYNC", [] (bytes &o) { Sink s (o); double g = 1; mstl3_printgaplist (sh.l, SEEDORDINAL, V () ? &g : NULL, NULL); mstl3_printsynclist (sh.l, V () ? "A" : NULL, MICRO); o = no_date (o); });
  T ("find a trace", [] (bytes &o) { Sink s (o); MS3TraceID *id = mstl3_findID (sh.l, V () ? "FDSN:YY_B_00_L_H_Z" : SID, 0, NULL); o += id ? id->sid : "none"; for (MS3TraceSeg *g = id ? id->first : NULL; g; g = g->next) o += fmt ("%lld", (long long)g->starttime); });
  T ("match selections", [] (bytes &o) { Sink s (o); for (auto x : {SID, "FDSN:YY_B_00_L_H_Z", "FDSN:YY_BB_00_L_H_Z"}) for (nstime_t t : {T0, T0 + V () * 501 * NS1}) { const MS3SelectTime *st = NULL; const MS3Selections *r = ms3_matchselect (sh.sel, x, t, t + NS1, 2, &st); o += r ? r->sidpattern : "-"; o += st ? "+" : "-"; } o += msr3_matchselect (sh.sel, V () ? sh.m : sh.m2, NULL) ? "m" : "n"; ms3_printselections (sh.sel); });
  T ("read the same buffer", [] (bytes &o) { Sink s (o); parse (o, *(V () ? sh.in2 : sh.in3), true); o += fmt ("%d %d", ms_parse_raw2 (sh.in2->data (), sh.in2->size (), 1, -1), ms_parse_raw3 (sh.in3->data (), sh.in3->size (), 1)); MS3TraceList *l = NULL; o += fmt ("%lld", (long long)mstl3_readbuffer (&l, sh.in3->data (), sh.in3->size (), 0, MSF_UNPACKDATA, NULL, 0)); o += dump (l); mstl3_free (&l, 0); });
}
static std::vector<bytes> solo[3]; static std::vector<uint64_t> npoints[3]; static std::vector<std::set<uintptr_t>> rd[3], wr[3];
static bytes run_task (const Task &t) { bytes o; try { t.fn (o); } catch (Violation &v) { o += "FAILED: " + v.msg; } return o; }
static void schedule (Ctx &c, const std::vector<int> &who, int first, const std::vector<Plan> &plan, const std::set<uintptr_t> *only)
{
  std::vector<bytes> res (who.size ()); std::vector<std::function<void ()>> f; std::vector<const char *> ptr (who.size ()); std::vector<size_t> len (who.size ());
  for (size_t i = 0; i < who.size (); i++) { const Task *t = &tasks[who[i]]; f.push_back ([&, i, t] { bytes o = run_task (*t); char *p = (char *)malloc (o.size () + 1); memcpy (p, o.data (), o.size ()); ptr[i] = p; len[i] = o.size (); }); }
  sched::run (f, first, plan, false, only); c.step (sched::W ().switches); sched::W ().switches = 0;
  Hash h; for (size_t i = 0; i < who.size (); i++) { bytes r (ptr[i], len[i]); h.s (r); if (r != solo[i][who[i]]) { size_t d = 0; while (d < r.size () && d < solo[i][who[i]].size () && r[d] == solo[i][who[i]][d]) d++; bytes p; for (auto &x : plan) p += fmt (" %llu:%d", (unsigned long long)x.after, x.who); fail ("'%s' beside %s'%s' (starting %d, switching at%s) gives %s instead of %s", tasks[who[i]].name, who.size () > 2 ? "others and " : "", tasks[who[who.size () - 1 - i]].name, first, p.c_str (), jesc (r.substr (d > 20 ? d - 20 : 0, 80)).c_str (), jesc (solo[i][who[i]].substr (d > 20 ? d - 20 : 0, 80)).c_str ()); } }
  c.state (h.u (sched::globals_changed ()));
}
int main (int argc, char **argv)
{
  bool th = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P20";
  scratch = getenv ("MC_SCRATCH") ? getenv ("MC_SCRATCH") : "/tmp";
  tzset (); { time_t t = time (NULL); localtime (&t); struct tm x; localtime_r (&t, &x); } // what the C library allocates once
  define ();
  shared ();
  for (size_t i = 0; i < tasks.size (); i++) for (int v = 0; v < 3; v++)
  { // alone, from the state of a started program
    const char *p = NULL; size_t n = 0; const Task *t = &tasks[i]; std::vector<std::function<void ()>> f (v + 1); f[v] = [&] { bytes o = run_task (*t); char *q = (char *)malloc (o.size () + 1); memcpy (q, o.data (), o.size ()); p = q; n = o.size (); };
    for (int k = 0; k < 2; k++) { sched::run (f, v, {}, true); if (k == 0) solo[v].push_back (bytes (p, n)); else if (bytes (p, n) != solo[v].back ()) { fprintf (stderr, "task '%s' is not repeatable\n", t->name); return 3; } }
    npoints[v].push_back (sched::W ().t[v].points); rd[v].push_back (sched::W ().reads[v]); wr[v].push_back (sched::W ().writes[v]);
    if (getenv ("P20_SHOW")) fprintf (stderr, "%-32s %5llu points, %zu read, %zu written, %zu bytes of results %016llx\n%s", t->name, (unsigned long long)npoints[v][i], rd[v][i].size (), wr[v][i].size (), solo[v][i].size (), (unsigned long long)Hash ().s (solo[v][i]).h, getenv ("P20_SHOW")[0] == 'v' ? (jesc (solo[v][i]) + "\n").c_str () : "");
  }
  sched::W ().switches = 0;
  static int N = nown, NT = tasks.size () - nown;
  cfg.rule = "every pair of the tasks x both first threads x every position of the stated number of preemptions among the accesses to memory that is not a thread's own (and calls of C library functions with hidden state); each thread's result compared with running alone, the library's variables reset between executions";
  cfg.assumptions = {"sequential consistency of memory accesses", "set-up functions documented to be global (leap second list, allocator, ms3_readmsr without _r, URL settings) are not called", "memory accesses within the C library are scheduled at the call"};
  int K = th ? 2 : 1;
  auto pairs = [] (Ctx &c, int a, int b, int K) {
    int first = c.pick (2); std::vector<int> who{a, b}; std::vector<Plan> plan; int cur = first; int k = 1 + c.pick (K);
    uint64_t left[2] = {npoints[0][a], npoints[1][b]};
    for (int i = 0; i < k; i++) { if (left[cur] == 0) return; uint64_t at = c.pick ((int)left[cur] + (k == 1 ? 1 : 0)); if (at == left[cur]) break; left[cur] -= at; plan.push_back ({1 - cur, at}); cur = 1 - cur; }
    if (!plan.empty ()) c.nontriv (); schedule (c, who, first, plan, NULL); };
  cfg.scenarios.push_back ({"all-accesses", [=] (Ctx &c) { int a = c.pick (N), b = c.pick (N); pairs (c, a, b, npoints[0][a] * npoints[1][b] <= (th ? 100000 : 5000) ? 2 : 1); },
    fmt ("%d tasks in pairs, one preemption at every access to shared memory, two where the product of the accesses is within %d", N, th ? 100000 : 5000)});
  cfg.scenarios.push_back ({"shared", [=] (Ctx &c) { int a = c.pick (NT), b = c.pick (NT); pairs (c, N + a, N + b, th && npoints[0][N + a] * npoints[1][N + b] <= 100000 ? 2 : 1); },
    fmt ("%d tasks reading the same records, trace list, selections and input, in pairs, one preemption at every access to shared memory%s", NT, th ? ", two where the product of the accesses is within 100000" : "")});
  int KC = th ? 4 : 3;
  cfg.scenarios.push_back ({"conflicts", [=] (Ctx &c) {
    bool other = c.pick (2); int a = c.pick (other ? NT : N), b = c.pick (other ? NT : N), first = c.pick (2); if (other) a += N, b += N; static std::map<std::pair<int, int>, std::set<uintptr_t>> conf; static std::map<std::pair<int, int>, std::array<uint64_t, 2>> cnt;
    auto key = std::make_pair (a, b); if (!conf.count (key))
    { // locations written by one and used by the other
      std::set<uintptr_t> s; for (auto g : wr[0][a]) if (rd[1][b].count (g) || wr[1][b].count (g)) s.insert (g); for (auto g : wr[1][b]) if (rd[0][a].count (g) || wr[0][a].count (g)) s.insert (g);
      conf[key] = s; if (s.empty ()) cnt[key] = {0, 0}; else for (int i = 0; i < 2; i++) { int w = i ? b : a; const Task *t = &tasks[w]; std::vector<std::function<void ()>> f (i + 1); f[i] = [&] { run_task (*t); }; sched::run (f, i, {}, false, &conf[key]); cnt[key][i] = sched::W ().t[i].points; }
    }
    if (conf[key].empty ()) { if (first == 0) schedule (c, {a, b}, 0, {}, NULL); return; } // no dependent accesses: all schedules are equivalent
    int k = 1 + c.pick (KC); std::vector<Plan> plan; int cur = first; uint64_t left[2] = {cnt[key][0], cnt[key][1]};
    for (int i = 0; i < k; i++) { if (!left[cur]) return; uint64_t at = c.pick ((int)left[cur]); left[cur] -= at; plan.push_back ({1 - cur, at}); cur = 1 - cur; }
    c.nontriv (); schedule (c, {a, b}, first, plan, &conf[key]);
  }, fmt ("%d tasks with own and %d with common objects in pairs, up to %d preemptions at every access to a location that one of the pair writes and the other uses; a single schedule where there is none", N, NT, KC)});
  if (th) cfg.scenarios.push_back ({"three", [=] (Ctx &c) {
    int a = c.pick (N), b = c.pick (N), d = c.pick (N); std::vector<int> who{a, b, d}; int first = c.pick (3); std::vector<Plan> plan; uint64_t n = npoints[first][who[first]]; if (!n) return;
    int nx = (first + 1 + c.pick (2)) % 3; plan.push_back ({nx, (uint64_t)c.pick ((int)n)}); c.nontriv (); schedule (c, who, first, plan, NULL);
  }, fmt ("%d tasks in threes, one preemption", N)});
  return mc::run (argc, argv, cfg);
}
