// P06: version 2 headers and blockettes: parsing against an independent reading of the bytes, writing back to a fixed point.
#include "json.hpp"
using namespace ref; using mc::Ctx; using mc::fail; using mc::fmt; using js::J;
static bool thorough;

// ---------------------------------------------------------------- independent reading of a version 2 record
struct Meaning { bytes sid; int64_t start = 0; double rate = 0; int pub = 0, flags = 0, enc = -1; int64_t n = 0; J doc = J::O (); bool any = false, vco_bad = false; };
static bytes tstr (int64_t t)
{
  Civil v = civil (t);
  bytes s = fmt ("%04d-%02d-%02dT%02d:%02d:%02d", (int)v.year, v.month, v.mday, v.hour, v.min, v.sec);
  if (v.nsec) s += v.nsec % 1000 ? fmt (".%09u", v.nsec) : fmt (".%06u", v.nsec / 1000);
  return s + "Z";
}
static bytes trim (const bytes &r, size_t o, size_t n) { bytes s = r.substr (o, n); s = s.c_str (); while (!s.empty () && s.back () == ' ') s.pop_back (); return s; }
static bytes nospace (const bytes &r, size_t o, size_t n) { bytes s = bytes (r.substr (o, n).c_str ()), t; for (char ch : s) if (ch != ' ') t += ch; return t; }
struct Rd
{
  const bytes &r; bool big;
  uint64_t u (size_t o, int n) const { return get (r, o, n, big); }
  float f (size_t o) const { return bitsf ((uint32_t)u (o, 4)); }
  bool time (size_t o, int64_t &t, int usec = 0) const
  {
    if (u (o, 2) == 0) return false;
    t = (int64_t)epoch_ns (u (o, 2), u (o + 2, 2), u (o + 4, 1), u (o + 5, 1), u (o + 6, 1), (int64_t)u (o + 8, 2) * 100000 + usec * 1000);
    return true;
  }
};
static J &sub (J &d, const char *a) { J *k = d.key (a); return k ? *k : d.put (a, J::O ()); }
static J &arr (J &d, const char *a, const char *b) { J &x = sub (d, a); J *k = x.key (b); return k ? *k : x.put (b, J::A ()); }
static void num (J &e, const char *k, float v) { if (v != 0.0f && std::isfinite (v)) e.put (k, J::N ((double)v)); }
static void str (J &e, const char *k, const bytes &s) { if (!s.empty ()) e.put (k, J::S (s)); }
static Meaning read2 (const bytes &r, bool big)
{
  Meaning m; Rd d{r, big};
  J f = J::O (); // /FDSN
  m.sid = "FDSN:" + nospace (r, 18, 2) + "_" + nospace (r, 8, 5) + "_" + nospace (r, 13, 2) + "_" + r[15] + "_" + r[16] + "_" + r[17];
  char q = r[6]; m.pub = q == 'M' ? 4 : q == 'Q' ? 3 : q == 'D' ? 2 : q == 'R' ? 1 : 0;
  m.n = d.u (30, 2);
  int fac = (int16_t)d.u (32, 2), mul = (int16_t)d.u (34, 2);
  m.rate = fac > 0 && mul > 0 ? (double)fac * mul : fac > 0 && mul < 0 ? -(double)fac / mul : fac < 0 && mul > 0 ? -(double)mul / fac : fac < 0 && mul < 0 ? 1.0 / ((double)fac * mul) : fac > 0 ? fac : fac < 0 ? -1.0 / fac : 0;
  int act = d.u (36, 1), io = d.u (37, 1), dq = d.u (38, 1); int32_t tc = (int32_t)d.u (40, 4);
  if (act & 1) m.flags |= 1; if (dq & 0x80) m.flags |= 2; if (io & 0x20) m.flags |= 4;
  if (act & 4) sub (f, "Event").put ("Begin", J::B (true));
  if (act & 8) sub (f, "Event").put ("End", J::B (true));
  if (act & 0x40) sub (f, "Event").put ("InProgress", J::B (true));
  if (act & 0x10) sub (f, "Time").put ("LeapSecond", J::I (1));
  if (act & 0x20) sub (f, "Time").put ("LeapSecond", J::I (-1));
  static const char *ion[] = {"StationVolumeParityError", "LongRecordRead", "ShortRecordRead", "StartOfTimeSeries", "EndOfTimeSeries"};
  static const char *dqn[] = {"AmplifierSaturation", "DigitizerClipping", "Spikes", "Glitches", "MissingData", "TelemetrySyncError", "FilterCharging"};
  for (int i = 0; i < 5; i++) if (io >> i & 1) sub (f, "Flags").put (ion[i], J::B (true));
  for (int i = 0; i < 7; i++) if (dq >> i & 1) sub (f, "Flags").put (dqn[i], J::B (true));
  if (tc) sub (f, "Time").put ("Correction", J::N (tc / 10000.0));
  int usec = 0;
  for (size_t o = d.u (46, 2); o; o = d.u (o + 2, 2))
  {
    int t = d.u (o, 2); J e = J::O (); int64_t x;
    auto caltail = [&] (size_t ch, size_t ref, size_t coup) {
      str (e, "InputChannel", trim (r, o + ch, 3));
      if (ref && d.u (o + ref, 4)) e.put ("ReferenceAmplitude", J::N ((double)d.u (o + ref, 4)));
      if (coup) { str (e, "Coupling", trim (r, o + coup, 12)); str (e, "Rolloff", trim (r, o + coup + 12, 12)); }
    };
    auto calhead = [&] (const char *type) {
      e.put ("Type", J::S (type)); int fl = d.u (o + 15, 1);
      if (d.time (o + 4, x)) e.put ("BeginTime", J::S (tstr (x)));
      e.put ("Trigger", J::S (fl & 4 ? "AUTOMATIC" : "MANUAL"));
      if (fl & 8) e.put ("Continued", J::B (true));
      if (d.u (o + 16, 4)) e.put ("Duration", J::N (d.u (o + 16, 4) / 10000.0));
    };
    switch (t)
    {
    case 100: m.rate = d.f (o + 4); break;
    case 200: case 201: {
      int fl = d.u (o + 16, 1);
      e.put ("Type", J::S (t == 200 ? "GENERIC" : "MURDOCK"));
      num (e, "SignalAmplitude", d.f (o + 4)); num (e, "SignalPeriod", d.f (o + 8)); num (e, "BackgroundEstimate", d.f (o + 12));
      if (t == 201 || !(fl & 4)) e.put ("Wave", J::S (fl & 1 ? "DILATATION" : "COMPRESSION"));
      if (t == 200) e.put ("Units", J::S (fl & 2 ? "DECONVOLVED" : "COUNTS"));
      if (d.time (o + 18, x)) e.put ("OnsetTime", J::S (tstr (x)));
      if (t == 200) str (e, "Detector", trim (r, o + 28, 24));
      else
      {
        J a = J::A (); bool any = false; for (int i = 0; i < 6; i++) { int v = d.u (o + 28 + i, 1); any |= v != 0; a.a.push_back (J::I (v)); }
        if (any) e.put ("MEDSNR", a);
        e.put ("MEDLookback", J::I (d.u (o + 34, 1))); e.put ("MEDPickAlgorithm", J::I (d.u (o + 35, 1)));
        str (e, "Detector", trim (r, o + 36, 24));
      }
      arr (f, "Event", "Detection").a.push_back (e); break; }
    case 300: { calhead ("STEP"); int fl = d.u (o + 15, 1);
      e.put ("Steps", J::I (d.u (o + 14, 1)));
      if (fl & 1) e.put ("StepFirstPulsePositive", J::B (true));
      if (fl & 2) e.put ("StepAlternateSign", J::B (true));
      if (d.u (o + 20, 4)) e.put ("StepBetween", J::N (d.u (o + 20, 4) / 10000.0));
      num (e, "Amplitude", d.f (o + 24)); caltail (28, 32, 36);
      arr (f, "Calibration", "Sequence").a.push_back (e); break; }
    case 310: { calhead ("SINE"); int fl = d.u (o + 15, 1);
      if (fl & 0x70) e.put ("AmplitudeRange", J::S (fl & 0x10 ? "PEAKTOPEAK" : fl & 0x20 ? "ZEROTOPEAK" : "RMS"));
      num (e, "SinePeriod", d.f (o + 20)); num (e, "Amplitude", d.f (o + 24)); caltail (28, 32, 36);
      arr (f, "Calibration", "Sequence").a.push_back (e); break; }
    case 320: calhead ("PSEUDORANDOM");
      if (d.u (o + 15, 1) & 0x10) e.put ("AmplitudeRange", J::S ("RANDOM"));
      num (e, "Amplitude", d.f (o + 20)); caltail (24, 28, 32); str (e, "Noise", trim (r, o + 56, 8));
      arr (f, "Calibration", "Sequence").a.push_back (e); break;
    case 390: calhead ("GENERIC"); num (e, "Amplitude", d.f (o + 20)); caltail (24, 0, 0); arr (f, "Calibration", "Sequence").a.push_back (e); break;
    case 395: e.put ("Type", J::S ("ABORT")); if (d.time (o + 4, x)) e.put ("EndTime", J::S (tstr (x))); arr (f, "Calibration", "Sequence").a.push_back (e); break;
    case 500: { float v = d.f (o + 4);
      if (d.time (o + 8, x, (int8_t)d.u (o + 18, 1))) e.put ("Time", J::S (tstr (x)));
      if (v >= 0 && std::isfinite (v)) e.put ("VCOCorrection", J::N ((double)v)); else m.vco_bad = true;
      e.put ("ReceptionQuality", J::I (d.u (o + 19, 1)));
      if (d.u (o + 20, 4)) e.put ("Count", J::I (d.u (o + 20, 4)));
      str (e, "Type", trim (r, o + 24, 16)); str (e, "ClockStatus", trim (r, o + 72, 128));
      sub (f, "Clock").put ("Model", J::S (trim (r, o + 40, 32)));
      arr (f, "Time", "Exception").a.push_back (e); break; }
    case 1000: m.enc = d.u (o + 4, 1); break;
    case 1001: sub (f, "Time").put ("Quality", J::I (d.u (o + 4, 1))); usec = (int8_t)d.u (o + 5, 1); break;
    }
  }
  int64_t s;
  if (!d.time (20, s)) m.start = NSTUNSET;
  else m.start = s + usec * 1000LL + (act & 2 ? 0 : tc * 100000LL);
  m.any = !f.o.empty (); if (m.any) m.doc.put ("FDSN", f);
  return m;
}
static bool same_num (const J &a, const J &b) // numbers by value, whatever their notation
{
  if ((a.t == 'i' || a.t == 'n') && (b.t == 'i' || b.t == 'n')) return (a.t == 'i' ? (double)a.i : a.d) == (b.t == 'i' ? (double)b.i : b.d);
  if (a.t != b.t) return false;
  if (a.t == 'a') { if (a.a.size () != b.a.size ()) return false; for (size_t i = 0; i < a.a.size (); i++) if (!same_num (a.a[i], b.a[i])) return false; return true; }
  if (a.t == 'o') { if (a.o.size () != b.o.size ()) return false; for (auto &p : a.o) { const J *q = b.key (p.first); if (!q || !same_num (p.second, *q)) return false; } return true; }
  return js::eq (a, b);
}
static void compare (const MS3Record *m, const Meaning &w, const char *what, bool start_ok = true)
{
  if (w.sid != m->sid) fail ("%s: identifier '%s', '%s' expected", what, m->sid, w.sid.c_str ());
  if (start_ok && m->starttime != w.start) fail ("%s: start time %lld, %lld expected", what, (long long)m->starttime, (long long)w.start);
  if (!(fabs (msr3_sampratehz (m) - w.rate) <= fabs (w.rate) * 1e-14)) fail ("%s: sample rate %.17g, %.17g expected", what, m->samprate, w.rate);
  if (m->pubversion != w.pub) fail ("%s: publication version %d, %d expected", what, m->pubversion, w.pub);
  if (m->flags != w.flags) fail ("%s: flags %02x, %02x expected", what, m->flags, w.flags);
  if (w.enc >= 0 && m->encoding != w.enc) fail ("%s: encoding %d, %d expected", what, m->encoding, w.enc);
  if (m->samplecnt != w.n) fail ("%s: sample count %lld, %lld expected", what, (long long)m->samplecnt, (long long)w.n);
  if (!w.any) { if (m->extralength || m->extra) fail ("%s: unexpected extra headers %s", what, m->extra ? m->extra : "of a length only"); return; }
  if (!m->extra) fail ("%s: no extra headers, %s expected", what, js::dump (w.doc).c_str ());
  bytes x (m->extra, m->extralength); J got;
  if (!js::parse (x, got)) fail ("%s: extra headers are not JSON: %s", what, x.c_str ());
  if (!same_num (got, w.doc)) fail ("%s: extra headers are\n   %s\nexpected\n   %s", what, x.c_str (), js::dump (w.doc).c_str ());
}
static const std::vector<double> SAMP = {1, -2, 300, -40000, 5000000};
// parse, write as version 2 and 3, parse again: same meaning; written again: the same bytes
static void judge (Ctx &c, const bytes &r, bool big, bool back = true)
{
  c.step ();
  Meaning w = read2 (r, big);
  Buf b (r); MS3Record *m = NULL; MemCheck mck;
  int rc = msr3_parse (b.p, b.n, &m, MSF_UNPACKDATA, 0);
  if (rc) fail ("record is refused with %d: %s", rc, log ().last.c_str ());
  compare (m, w, "parsed");
  if (!b.same ()) fail ("parsing changed the record");
  if (m->numsamples != (int64_t)SAMP.size ()) fail ("%lld samples decoded", (long long)m->numsamples);
  for (size_t i = 0; i < SAMP.size (); i++) if (((int32_t *)m->datasamples)[i] != SAMP[i]) fail ("sample %zu decoded as %d", i, ((int32_t *)m->datasamples)[i]);
  bool writable = w.start != NSTUNSET && w.start >= epoch_ns (1900, 1, 0, 0, 0, 0) && w.start < epoch_ns (2101, 1, 0, 0, 0, 0) && w.rate > 0;
  if (back && writable)
  {
    c.nontriv ();
    for (int v3 = 0; v3 < 2; v3++)
    {
      m->reclen = v3 ? 131072 : 4096; m->record = NULL; m->formatversion = v3 ? 3 : 2;
      Packed p = pack_all (m, MSF_FLUSHDATA | (v3 ? 0 : MSF_PACKVER2));
      const char *what = v3 ? "written as version 3" : "written as version 2";
      double big_ = w.rate >= 1 ? w.rate : 1 / w.rate; // documented: no version 2 form for fractional rates or periods beyond 32767
      if (!v3 && p.rc < 0 && big_ > 32767 && (fabs (big_ - round (big_)) > 1e-8 || big_ > 32767.0 * 32767.0)) continue;
      if (p.rc != 1 || p.n != (int64_t)SAMP.size ()) fail ("%s: packing returns %d, %lld samples: %s", what, p.rc, (long long)p.n, log ().last.c_str ());
      Meaning e = w; if (e.pub == 0 && !v3) e.pub = -1;
      Buf b2 (p.recs[0]); MS3Record *m2 = NULL;
      if (msr3_parse (b2.p, b2.n, &m2, MSF_UNPACKDATA, 0)) fail ("%s: not readable", what);
      if (!v3)
      {
        // the writer's own bytes, read independently
        Meaning w2 = read2 (p.recs[0], true);
        if (w.vco_bad) e.doc = w2.doc;
        // a microsecond offset needs blockette 1001, which brings the timing quality with it
        if (e.pub < 0) e.pub = w2.pub;
        const J *f1 = e.doc.key ("FDSN"), *t1 = f1 ? f1->key ("Time") : nullptr, *f2 = w2.doc.key ("FDSN"), *t2 = f2 ? f2->key ("Time") : nullptr;
        if (!(t1 && t1->key ("Quality")) && t2 && t2->key ("Quality")) { sub (sub (e.doc, "FDSN"), "Time").put ("Quality", J::I (0)); e.any = true; }
        if (fabs (w2.rate - e.rate) <= e.rate * 2e-7) e.rate = w2.rate;
        compare (m2, e, what);
        if (!same_num (w2.doc, e.doc)) fail ("%s: header and blockettes read independently are\n   %s\nexpected\n   %s", what, js::dump (w2.doc).c_str (), js::dump (e.doc).c_str ());
        if (w2.start != e.start) fail ("%s: start time read independently is %lld, %lld expected", what, (long long)w2.start, (long long)e.start);
        m2->record = NULL;
        Packed p2 = pack_all (m2, MSF_FLUSHDATA | MSF_PACKVER2);
        if (p2.rc != 1) fail ("%s: what was read back cannot be written: %s", what, log ().last.c_str ());
        Meaning w3 = read2 (p2.recs[0], true);
        // equal rates have several factor and multiplier pairs
        auto sans = [] (bytes x) { return x.replace (32, 4, bytes (4, 0)); };
        bool rounded = fabs (w2.rate - w.rate) > w.rate * 1e-14; // explicit rates are stored in single precision: one more round settles
        if (fabs (w3.rate - w2.rate) > w2.rate * (rounded ? 1e-7 : 1e-14)) fail ("writing again changes the rate from %.17g to %.17g", w2.rate, w3.rate);
        if (rounded)
        {
          Buf b3 (p2.recs[0]); MS3Record *m3 = NULL; if (msr3_parse (b3.p, b3.n, &m3, MSF_UNPACKDATA, 0)) fail ("record written again is not readable");
          Meaning e3 = e; e3.rate = w3.rate; const J *t3 = w3.doc.key ("FDSN"); if (t3 && (t3 = t3->key ("Time")) && (t3 = t3->key ("Quality"))) { J &T = sub (sub (e3.doc, "FDSN"), "Time"); if (!T.key ("Quality")) T.put ("Quality", J::I (0)); e3.any = true; }
          compare (m3, e3, "written again");
          m3->record = NULL; p = p2; p2 = pack_all (m3, MSF_FLUSHDATA | MSF_PACKVER2); msr3_free (&m3);
        }
        if (p2.rc != 1 || sans (p2.recs[0]) != sans (p.recs[0])) fail ("writing again does not give the same record:\n   %s\n   %s", hex (p.recs[0], 256).c_str (), p2.recs.size () ? hex (p2.recs[0], 256).c_str () : "none");
      }
      else { e.n = SAMP.size (); compare (m2, e, what); }
      if (m2->numsamples != (int64_t)SAMP.size () || memcmp (m2->datasamples, m->datasamples, 4 * SAMP.size ())) fail ("%s: samples differ", what);
      msr3_free (&m2);
    }
  }
  msr3_free (&m);
  mck.done ("round trip");
}
// ---------------------------------------------------------------- records
static Rec2 base (bool big, int exp = 12)
{
  Rec2 r; r.big = big; r.reclen = (size_t)1 << exp; r.numsamples = SAMP.size (); r.factor = 20; r.mult = 1; r.loc = "00"; r.chan = "BHZ";
  r.data = enc_plain (DE_INT32, SAMP, true);
  return r;
}
static void add1000 (Rec2 &r, bool first = true, int exp = 12) { bytes k = blk_sample (1000, r.big, DE_INT32, 1, exp); r.blks.insert (first ? r.blks.begin () : r.blks.end (), k); }

static void flags (Ctx &c)
{
  bool big = c.flip (); Rec2 r = base (big);
  int which = c.pick (3), v = c.pick (256); int others = c.one<int> ({0, 0xff, 0x55});
  uint8_t *p[] = {&r.act, &r.io, &r.dq};
  for (int i = 0; i < 3; i++) *p[i] = others; *p[which] = v;
  if (which != 0) r.act &= ~0x02;
  r.timecorr = c.one<int> ({0, 12345});
  if (c.flip ()) r.blks.push_back (r.b1001 (100, -3));
  add1000 (r, c.flip ());
  judge (c, r.build (), big);
}
static void header (Ctx &c)
{
  bool big = c.flip (); Rec2 r = base (big);
  r.quality = "RDQM"[c.pick (4)];
  r.reserved = " \0"[c.pick (2)];
  r.seq = c.one<bytes> ({"000001", "999999", "      ", "00001 "});
  r.net = c.one<bytes> ({"X", "XX", "N7"}); r.sta = c.one<bytes> ({"A", "ABC", "ABCDE"}); r.loc = c.one<bytes> ({"", "0", "00"}); r.chan = c.one<bytes> ({"BHZ", "LOG", "VM1"});
  add1000 (r);
  judge (c, r.build (), big);
}
static const std::vector<int> FM = {0, 1, 2, 3, 5, 7, 10, 20, 60, 100, 125, 200, 250, 999, 1000, 1024, 3600, 10000, 16384, 20000, 32766, 32767, -1, -2, -3, -5, -7, -10, -20, -60, -100, -125, -999, -1000, -1024, -3600, -10000, -20000, -32767, -32768};
static void rates (Ctx &c)
{
  bool big = c.flip (); Rec2 r = base (big);
  r.factor = c.of (FM); r.mult = c.of (FM);
  if (r.factor && !r.mult) return; // a zero multiplier with a factor has no published meaning
  static const std::vector<float> R = {0, 1, 0.1f, 20, 99.999f, 1e-5f, 1e6f, 3.3333333f, 0.016666668f, 16777216};
  int k = c.pick (R.size () + 1);
  if (k) { if (FM.size () > 0 && (r.factor % 10 && r.factor != 1)) return; r.blks.push_back (r.b100 (R[k - 1])); }
  add1000 (r, c.flip ());
  judge (c, r.build (), big);
}
static void times (Ctx &c)
{
  bool big = c.flip (); Rec2 r = base (big);
  static const int D[][5] = {{1970, 1, 0, 0, 0}, {1969, 365, 23, 59, 59}, {2016, 366, 23, 59, 59}, {2016, 366, 23, 59, 60}, {2024, 60, 12, 30, 30}, {1900, 1, 0, 0, 0}, {2054, 365, 23, 59, 59}, {2000, 366, 0, 0, 0}};
  auto &t = D[c.pick (8)]; r.year = t[0]; r.yday = t[1]; r.hour = t[2]; r.min = t[3]; r.sec = t[4];
  r.fract = c.one<int> ({0, 1, 4567, 9999, 5000});
  static const std::vector<int> TC = {0, 1, -1, 9999, 10000, -10000, 10001, -12345678, 300000000, INT32_MAX, INT32_MIN, 7, -7, 12345};
  r.timecorr = c.of (TC); r.act = c.flip () ? 0x02 : 0;
  int us = c.pick (12); static const int U[] = {0, 1, -1, 49, 50, -50, -49, 51, 99, -99, 127, -128};
  if (us < 11 || c.flip ()) r.blks.push_back (r.b1001 (us & 1 ? 100 : 0, U[us]));
  add1000 (r, us % 2);
  if (r.sec == 60 && false) return;
  judge (c, r.build (), big);
}
static void unset_time (Ctx &c)
{
  Rec2 r = base (true); r.year = 0; r.yday = 0; r.timecorr = c.one<int> ({0, 5, -5}); r.act = c.pick (4);
  if (c.flip ()) r.blks.push_back (r.b1001 (10, c.one<int> ({0, 10, -10})));
  add1000 (r, c.flip ());
  bytes b = r.build ();
  // a record without a start time is not detectable as version 2 unless its year and day pass
  Buf u (b); MS3Record *m = NULL; int rc = msr3_parse (u.p, u.n, &m, 0, 0);
  c.step ();
  if (!rc && m->starttime != NSTUNSET) fail ("a record without start time is given the time %lld", (long long)m->starttime);
  msr3_free (&m);
}
// ---------------------------------------------------------------- blockette fields
struct Field { int off; int len; char kind; }; // u unsigned, f float, s string, t time
static const std::map<int, std::vector<Field>> FIELDS = {
  {100, {{4, 4, 'F'}, {8, 1, 'u'}}},
  {200, {{4, 4, 'f'}, {8, 4, 'f'}, {12, 4, 'f'}, {16, 1, 'u'}, {18, 10, 't'}, {28, 24, 's'}}},
  {201, {{4, 4, 'f'}, {8, 4, 'f'}, {12, 4, 'f'}, {16, 1, 'u'}, {18, 10, 't'}, {28, 1, 'u'}, {29, 1, 'u'}, {30, 1, 'u'}, {31, 1, 'u'}, {32, 1, 'u'}, {33, 1, 'u'}, {34, 1, 'u'}, {35, 1, 'u'}, {36, 24, 's'}}},
  {300, {{4, 10, 't'}, {14, 1, 'u'}, {15, 1, 'u'}, {16, 4, 'u'}, {20, 4, 'u'}, {24, 4, 'f'}, {28, 3, 's'}, {32, 4, 'u'}, {36, 12, 's'}, {48, 12, 's'}}},
  {310, {{4, 10, 't'}, {15, 1, 'u'}, {16, 4, 'u'}, {20, 4, 'f'}, {24, 4, 'f'}, {28, 3, 's'}, {32, 4, 'u'}, {36, 12, 's'}, {48, 12, 's'}}},
  {320, {{4, 10, 't'}, {15, 1, 'u'}, {16, 4, 'u'}, {20, 4, 'f'}, {24, 3, 's'}, {28, 4, 'u'}, {32, 12, 's'}, {44, 12, 's'}, {56, 8, 's'}}},
  {390, {{4, 10, 't'}, {15, 1, 'u'}, {16, 4, 'u'}, {20, 4, 'f'}, {24, 3, 's'}}},
  {395, {{4, 10, 't'}}},
  {500, {{4, 4, 'f'}, {8, 10, 't'}, {18, 1, 'u'}, {19, 1, 'u'}, {20, 4, 'u'}, {24, 16, 's'}, {40, 32, 's'}, {72, 128, 's'}}},
  {1001, {{4, 1, 'u'}, {5, 1, 'u'}, {7, 1, 'u'}}},
};
static const std::vector<int> TYPES = {100, 200, 201, 300, 310, 320, 390, 395, 500, 1001};
static void set_field (Ctx &c, bytes &k, const Field &f, bool big, bool few)
{
  Blk b (big, 0, 0); b.b = k;
  switch (f.kind)
  {
  case 'u': {
    if (f.len == 1) { b.u (f.off, few ? c.one<int> ({0, 1, 0x1d, 255}) : c.pick (256), 1); break; }
    static const std::vector<uint32_t> U = {0, 1, 9, 10000, 12345, 65535, 99999, 1000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 3, 33333, 4294960000u, 123456789};
    b.u (f.off, few ? c.one<uint32_t> ({0, 12345, 0xffffffffu}) : c.of (U), f.len); break; }
  case 'F': { static const std::vector<float> R = {1, 0.1f, 20, 99.999f, 1e-6f, 1e6f, 3.3333333f, 0.016666668f, 16777216, 1e30f, 1e-38f}; b.f (f.off, few ? c.one<float> ({20, 0.1f}) : c.of (R)); break; }
  case 'f': {
    static const std::vector<uint32_t> X = {0, 0x80000000, fbits (1), fbits (-1), fbits (0.1f), fbits (100), fbits (1e10f), fbits (3.4028234e38f), fbits (-3.4028234e38f), 1, 0x80000001, 0x00800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, fbits (123456.78f), fbits (16777217), fbits (1e-10f)};
    b.u (f.off, few ? c.one<uint32_t> ({0, fbits (0.1f), fbits (3.4028234e38f)}) : c.of (X), 4); break; }
  case 's': {
    int n = few ? c.one<int> ({0, 1, f.len}) : c.pick (f.len + 1), fill = few ? 0 : c.pick (5);
    bytes s; for (int i = 0; i < n; i++) s += fill == 0 ? "ABCDEFGHIJ"[i % 10] : fill == 1 ? "a b  \"\\/"[i % 8] : fill == 2 ? " x"[i % 2] : fill == 3 ? "{}[]:,'@"[i % 8] : (char)0xc3 + 0 * i;
    if (fill == 4) { s.clear (); for (int i = 0; i + 1 < n; i += 2) s += "\xc3\xa9"; }
    bytes pad (f.len - s.size (), fill == 3 ? '\0' : ' '); b.b.replace (f.off, f.len, s + pad); break; }
  case 't': {
    static const BT T[] = {{2020, 100, 1, 2, 3, 4567}, {0, 0, 0, 0, 0, 0}, {1970, 1, 0, 0, 0, 0}, {1969, 365, 23, 59, 59, 9999}, {2016, 366, 23, 59, 60, 0}, {2100, 365, 23, 59, 59, 9999}, {1900, 1, 0, 0, 0, 1}, {2024, 60, 12, 0, 0, 1000}};
    b.t (f.off, T[few ? c.pick (3) : c.pick (8)]); break; }
  }
  k = b.b;
}
static void fields (Ctx &c)
{
  bool big = c.flip (); Rec2 r = base (big);
  int type = c.of (TYPES); auto &F = FIELDS.at (type);
  bytes k = blk_sample (type, big);
  if (c.flip ()) { bytes z (k.size (), 0); z.replace (0, 2, k.substr (0, 2)); k = z; if (type == 100) set (k, 4, fbits (5), 4, big); }
  set_field (c, k, F[c.pick (F.size ())], big, false);
  r.blks.push_back (k); add1000 (r, c.flip ());
  judge (c, r.build (), big);
}
static void pairs (Ctx &c)
{
  bool big = thorough ? c.flip () : true; Rec2 r = base (big);
  int type = c.of (TYPES); auto &F = FIELDS.at (type);
  if (F.size () < 2) return;
  bytes k = blk_sample (type, big);
  int i = c.pick (F.size () - 1), j = i + 1 + c.pick (F.size () - 1 - i);
  set_field (c, k, F[i], big, true); set_field (c, k, F[j], big, true);
  r.blks.push_back (k); add1000 (r);
  judge (c, r.build (), big);
}
// ---------------------------------------------------------------- blockette chains
static void chains (Ctx &c, int depth)
{
  bool big = c.flip (); Rec2 r = base (big);
  r.act = c.flip () ? 0x4d : 0;
  int n = c.pick (depth + 1), at = c.pick (n + 1); bool two = false; int n100 = 0, n1001 = 0;
  for (int i = 0; i < n; i++)
  {
    int t = BLKTYPES[c.pick (14)];
    if (t == 1000) { two = true; break; }
    n100 += t == 100; n1001 += t == 1001;
    bytes k = blk_sample (t, big);
    if (t >= 200 && t < 400 && i) set (k, t == 200 || t == 201 ? 16 : t == 395 ? 15 : 15, t == 395 ? 0 : i, 1, big);
    if (t == 500 && i) { Blk b (big, 0, 0); b.b = k; b.u (20, 100 + i, 4); k = b.b; }
    r.blks.push_back (k);
  }
  if (two || n100 > 1 || n1001 > 1) return;
  if (at == 0 || at == n) add1000 (r, at == 0);
  else r.blks.insert (r.blks.begin () + at, blk_sample (1000, big, DE_INT32, 1, 12));
  judge (c, r.build (), big);
}
static void many (Ctx &c) // long chains of one type, up to what a record holds
{
  bool big = c.flip (); Rec2 r = base (big);
  int type = c.one<int> ({200, 201, 300, 310, 320, 390, 395, 500}); int n = 1 + c.pick (type == 500 ? 18 : 50);
  for (int i = 0; i < n; i++) { bytes k = blk_sample (type, big); if (type == 500) set (k, 20, 1 + i, 4, big); else if (type != 395 && type < 300) set (k, 8, fbits (1 + i), 4, big); else if (type != 395) set (k, 16, 1 + i, 4, big); else set (k, 12, i, 2, big); r.blks.push_back (k); }
  add1000 (r, c.flip ());
  judge (c, r.build (), big);
}
static void room (Ctx &c) // written to lengths just as large as the blockettes and around
{
  static const int T[] = {200, 201, 300, 310, 320, 390, 395, 500, 1001, 100};
  bool big = c.flip (); Rec2 r = base (big); int n = c.pick (thorough ? 7 : 5), last = 0; bool data = c.flip (); if (!data) { r.numsamples = 0; r.data = ""; }
  std::vector<int> ts; for (int i = 0; i < n; i++) { last += c.pick (10 - last); ts.push_back (T[last]); r.blks.push_back (blk_sample (T[last], big)); if (T[last] >= 1001 || T[last] == 100) if (++last > 9) { n = i + 1; break; } }
  add1000 (r, true);
  bytes raw = r.build (); Buf b (raw); MS3Record *m = NULL; MemCheck mk;
  if (msr3_parse (b.p, b.n, &m, MSF_UNPACKDATA, 0)) fail ("record is refused");
  m->record = NULL; m->formatversion = 2; m->reclen = 4096;
  Packed p = pack_all (m, MSF_FLUSHDATA | MSF_PACKVER2); c.step ();
  if (p.rc != 1) fail ("packing returns %d: %s", p.rc, log ().last.c_str ());
  // the end of the last blockette
  size_t end = 48; for (size_t o = get (p.recs[0], 46, 2, true); o; o = get (p.recs[0], o + 2, 2, true))
  {
    int t = get (p.recs[0], o, 2, true); size_t l = t == 1000 || t == 1001 ? 8 : t == 100 ? 12 : t == 500 ? 200 : t == 200 ? 52 : t == 201 || t == 300 || t == 310 ? 60 : t == 320 ? 64 : t == 390 ? 28 : t == 395 ? 16 : 0;
    if (!l) fail ("blockette %d written", t); end = o + l; if (end >= 4096) fail ("blockettes beyond the record");
  }
  int nsam = data ? (int)SAMP.size () : 0;
  for (int len = 128; len <= 1024; len *= 2)
  {
    m->reclen = len; Packed q = pack_all (m, MSF_FLUSHDATA | MSF_PACKVER2); c.step (); c.state (mc::Hash ().u (len).u (end).u (q.rc));
    if (end > (size_t)len) { if (q.rc >= 0 || q.recs.size ()) fail ("%zu bytes of blockettes written to a record of %d", end, len); continue; }
    if (!data || end + 64 <= (size_t)len)
    {
      if (q.rc < 1 || (!data && q.rc != 1)) fail ("header and blockettes of %zu bytes not written to a record of %d: %s", end, len, log ().last.c_str ());
      if (!data) { c.nontriv (); bytes x = q.recs[0], y = p.recs[0].substr (0, end); set (y, 54, get (x, 54, 1, true), 1, true); if ((int)x.size () != len || x.compare (0, end, y)) fail ("a record of %d bytes has other blockettes than one of 4096", len); }
    }
    if (q.rc >= 0 && q.n != nsam) fail ("%lld samples packed", (long long)q.n);
    int64_t got = 0; for (auto &x : q.recs) { Buf xb (x); MS3Record *g = NULL; if (msr3_parse (xb.p, xb.n, &g, MSF_UNPACKDATA, 0)) fail ("record of %d bytes is not readable", len); J ja, jb; if (!g->extralength != !m->extralength || (m->extralength && (!js::parse (bytes (g->extra, g->extralength), ja) || !js::parse (bytes (m->extra, m->extralength), jb) || !same_num (ja, jb)))) fail ("record of %d bytes has extra headers\n  %s\nfor\n  %s", len, g->extra, m->extra); for (int i = 0; i < g->numsamples; i++, got++) if (((int32_t *)g->datasamples)[i] != SAMP[got]) fail ("sample %lld differs", (long long)got); msr3_free (&g); }
    if (q.rc >= 0 && got != nsam) fail ("%lld samples found", (long long)got);
  }
  msr3_free (&m); mk.done ("packing");
}
int main (int argc, char **argv)
{
  setup ();
  thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  mc::Config cfg; cfg.property = "P06";
  cfg.rule = "each enumerated record is parsed and compared with an independent reading of its bytes (every header field, flag and blockette field), then written as version 2 and as version 3, read back by the library and independently: the same meaning, and written once more the same bytes";
  cfg.assumptions = {"the year 2056 (0x0808) reads the same in both byte orders and is not generated", "a zero multiplier together with a factor, more than one blockette 100, 1000 or 1001, and values the format defines no meaning for are not generated", "the library documents that fractional rates or periods beyond 32767 have no version 2 form: writing them may be refused", "blockettes 400, 405 and 2000 are documented as discarded", "writing is judged for starts in 1900-2100 and positive rates; times of blockettes carry 100 microseconds, blockette 500 one microsecond"};
  cfg.scenarios.push_back ({"flags", flags, "each value of each flag byte, others 0, 0x55 or 0xff, with correction, blockette 1001 and both orders"});
  cfg.scenarios.push_back ({"header", header, "4 qualities x sequence forms x code lengths"});
  cfg.scenarios.push_back ({"rates", rates, "40 x 40 factors and multipliers, with 10 explicit rates for part of them"});
  cfg.scenarios.push_back ({"times", times, "8 dates x 5 fractions x 14 corrections, applied or not x 12 microsecond offsets"});
  cfg.scenarios.push_back ({"unset-time", unset_time, "records without start time"});
  cfg.scenarios.push_back ({"fields", fields, "every field of 10 blockette types with all byte values, boundary values of wider fields, all string lengths in 5 fillings"});
  cfg.scenarios.push_back ({"field-pairs", pairs, "all pairs of fields of a blockette with 3-4 values each"});
  cfg.scenarios.push_back ({"chains", [] (Ctx &c) { chains (c, thorough ? 4 : 3); }, "all sequences of up to 3 (4) blockettes of 14 types with blockette 1000 at each position"});
  cfg.scenarios.push_back ({"room", room, "all combinations of up to 4 (6) blockettes of 10 types, with samples and header only, written to 128 to 1024 bytes: written whole where they fit, refused otherwise"});
  cfg.scenarios.push_back ({"many", many, "1-50 blockettes of one type"});
  return mc::run (argc, argv, cfg);
}
