// P26: re-packaging a parsed record into version 3 keeps payload and meaning.
#include "ref.hpp"
using namespace mc; using namespace ref;

static MS3Record *parse (const bytes &b, uint32_t flags, bool must = true)
{
  MS3Record *m = NULL;
  int rc = msr3_parse (b.data (), b.size (), &m, flags, 0);
  if (rc && must) fail ("record of the harness not parsed: %d", rc);
  return m;
}
struct Out { int rc; bytes b; };
static Out repack (const MS3Record *m, size_t n)
{
  Buf o (bytes (n, '\xee'));
  Out r;
  r.rc = msr3_repack_mseed3 (m, o.p, (uint32_t)n, 0);
  if (r.rc > (int)n) fail ("%d bytes reported in a destination of %zu", r.rc, n);
  if (r.rc > 0) r.b.assign (o.p, r.rc);
  if (r.rc > 0 && bytes (o.p + r.rc, n - r.rc) != bytes (n - r.rc, '\xee')) fail ("bytes changed beyond the reported record length");
  return r;
}
static bytes samples (const MS3Record *m) { return m->numsamples > 0 && m->datasamples ? bytes ((const char *)m->datasamples, (size_t)m->numsamples * ms_samplesize (m->sampletype)) : bytes (); }
static bytes json (const MS3Record *m) { return m->extralength ? bytes (m->extra, m->extralength) : bytes (); }

// rates below one sample per second may be stored as the period, that is all the rounding allowed
static bool same_rate (double v3, double orig)
{
  if (dbits (v3) == dbits (orig)) return true;
  return orig > 0 && orig < 1 && v3 < 0 && fabs (-1.0 / v3 - orig) <= orig * 4e-16;
}

// the result as an independent reader and the library see it, against the source
static bytes verify (Ctx &c, const bytes &src, const MS3Record *m, const bytes *payload)
{
  Out full = repack (m, 70000 + src.size ());
  c.step ();
  if (full.rc <= 0) fail ("repacking returned %d", full.rc);
  Rec3 r; bytes e = r.parse (full.b);
  if (e.size ()) fail ("result is not a valid version 3 record: %s", e.c_str ());
  int enc = m->encoding < 0 ? DE_STEIM1 : m->encoding;
  if (r.sid != m->sid) fail ("identifier %s became %s", m->sid, r.sid.c_str ());
  if (r.start () != m->starttime) fail ("start time changed");
  if (!same_rate (r.samprate, m->samprate)) fail ("rate %.17g became %.17g", m->samprate, r.samprate);
  if (r.numsamples != m->samplecnt) fail ("sample count %lld became %u", (long long)m->samplecnt, r.numsamples);
  if (r.encoding != enc) fail ("encoding %d became %d", enc, r.encoding);
  if (r.flags != m->flags || r.pubver != m->pubversion) fail ("flags %02x version %d became %02x and %d", m->flags, m->pubversion, r.flags, r.pubver);
  if (r.extra != json (m)) fail ("extra headers %s became %s", json (m).c_str (), r.extra.c_str ());
  if (payload && r.data != *payload) fail ("payload %s (%zu bytes), expected %s (%zu bytes)", hex (r.data).c_str (), r.data.size (), hex (*payload).c_str (), payload->size ());
  // decoded samples
  MS3Record *a = parse (src, 0), *b = parse (full.b, MSF_VALIDATECRC);
  int64_t na = msr3_unpack_data (a, 0), nb = msr3_unpack_data (b, 0);
  c.step (2);
  if ((na < 0) != (nb < 0) || (na >= 0 && na != nb)) fail ("decoding the original gives %lld, decoding the result %lld", (long long)na, (long long)nb);
  if (na > 0 && (samples (a) != samples (b) || a->sampletype != b->sampletype)) fail ("decoded samples differ: %s and %s", hex (samples (a)).c_str (), hex (samples (b)).c_str ());
  if (!same_rate (b->samprate, a->samprate)) fail ("rates of the parsed records differ");
  if (na > 0) c.nontriv ();
  c.state (Hash ().s (full.b));
  msr3_free (&a); msr3_free (&b);
  return full.b;
}

// payload with n samples: bytes in the order asked for, and in version 3 order
struct Pay { bytes src, v3; int n; };
static const int ENCS[] = {0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 30, 32};
static Pay payload (Ctx &c, int enc, int n, bool big)
{
  Pay p; p.n = n;
  auto fixed = [&] (int w) {
    static const uint64_t S[] = {0x0102030405060708ULL, 0xfffefdfcfbfaf9f8ULL, 0, 0x7fff8000deadbeefULL, 0x4010000000000000ULL, 0x123};
    for (int i = 0; i < n; i++) { uint64_t v = S[i % 6] + i; if (enc == 5 && i % 6 == 1) v = dbits (-1.5); p.src += enc == 12 || w < 8 ? ref::enc (v & ((1ULL << (8 * std::min (w, 7))) - 1), w, big) : ref::enc (v, w, big); p.v3 += enc == 12 || w < 8 ? ref::enc (v & ((1ULL << (8 * std::min (w, 7))) - 1), w, false) : ref::enc (v, w, false); }
  };
  switch (enc)
  {
  case 0: for (int i = 0; i < n; i++) p.src += "Hello, world"[i % 12]; p.v3 = p.src; break;
  case 1: case 13: case 14: case 16: case 32: fixed (2); break;
  case 30: for (int i = 0; i < n; i++) { uint16_t v = (i * 97 & 0xfff) | (i % 11) << 12; p.src += ref::enc (v, 2, big); p.v3 += ref::enc (v, 2, false); } break;
  case 12: fixed (3); break;
  case 3: case 4: fixed (4); break;
  case 5: fixed (8); break;
  default:
    std::vector<int32_t> v; int32_t x = 5;
    static const int D[] = {1, -2, 7, -8, 15, -16, 30, 100, -120, 500, -512, 16000, 3, 2, 1, 0, 0, 0, 0, 70000, -5000000, 100000000, 4, 4};
    for (int i = 0; i < n; i++) { v.push_back (x); x += D[i % 24]; }
    p.src = steim_encode (enc - 9, v, big); p.v3 = steim_encode (enc - 9, v, true);
  }
  return p;
}

int main (int argc, char **argv)
{
  setup ();
  bool th = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P26";
  cfg.rule = "the result is byte for byte the version 3 record an independent reader expects, with the same decoded samples, or an error when the destination is too small";
  cfg.assumptions = {"version 3 payloads are little endian except for Steim encodings, which are big endian", "trailing padding of a payload need not be kept"};

  cfg.scenarios.push_back ({"v3", [=] (Ctx &c) {
    MemCheck mcx;
    Rec3 r;
    r.encoding = c.of (ENCS);
    int n = c.one<int> ({0, 1, 2, 13, th ? 300 : 120});
    Pay p = payload (c, r.encoding, n, r.encoding == 10 || r.encoding == 11);
    r.data = p.v3; r.numsamples = n;
    if (r.encoding >= 10 && r.encoding <= 11) r.data = n ? p.src : bytes ();
    r.flags = c.one<uint8_t> ({0, 1, 2, 4, 0xff}); r.pubver = c.one<uint8_t> ({0, 1, 255});
    r.samprate = c.one<double> ({0, 1, 100.5, -10, 1e-5, 3e9});
    r.sid = c.one<const char *> ({"FDSN:XX_TEST__L_H_Z", "X", "A:b_c", "FDSN:LONGNETWO_LONGSTATI_LONGLOCA_LONGBAND_LONGSOUR_LONGSUBS"});
    r.extra = c.one<const char *> ({"", "{}", "{\"FDSN\":{\"Time\":{\"Quality\":100}},\"Z\":[1,2.5,\"x\"]}"});
    if (c.flip ()) { r.nsec = 999999999; r.yday = 366; r.sec = 59; }
    bytes b = r.build ();
    MS3Record *m = parse (b, MSF_VALIDATECRC | (c.flip () ? MSF_UNPACKDATA : 0));
    bytes out = verify (c, b, m, &r.data);
    if (out != b && !(r.samprate > 0 && r.samprate < 1)) fail ("a version 3 record repacked without changes differs from itself");
    msr3_free (&m);
    mcx.done ("repacking");
  }, "13 encodings x 5 sample counts x flags, versions, rates, identifiers, extra headers and times: the result equals the source"});

  cfg.scenarios.push_back ({"v2", [=] (Ctx &c) {
    MemCheck mcx;
    Rec2 r;
    r.big = c.flip ();
    bool dbig = c.flip ();
    int enc = c.of (ENCS), n = c.one<int> ({0, 1, 2, 7, 40});
    Pay p = payload (c, enc, n, dbig);
    r.data = p.src; r.numsamples = n;
    r.reclen = c.one<size_t> ({512, 1024});
    r.act = c.one<uint8_t> ({0, 1, 0x7f}); r.io = c.one<uint8_t> ({0, 0x20, 0xff}); r.dq = c.one<uint8_t> ({0, 0x80, 0xff});
    r.quality = c.one<char> ({'D', 'R', 'M'});
    static const int FM[][2] = {{20, 1}, {-10, 1}, {1, -10}, {0, 0}, {-3, -7}};
    auto &fm = c.of (FM); r.factor = fm[0]; r.mult = fm[1];
    r.fract = 1234;
    int bl = c.pick (3);
    int exp = r.reclen == 512 ? 9 : 10;
    if (bl == 0) r.blks = {r.b1000 (enc, dbig, exp)};
    if (bl == 1) r.blks = {r.b1000 (enc, dbig, exp), r.b1001 (77, -13)};
    if (bl == 2) r.blks = {r.b100 (12.5f), blk_sample (500, r.big), r.b1000 (enc, dbig, exp), r.b1001 (77, 99)};
    { size_t end = 48; for (auto &k : r.blks) end += k.size (); if ((end + 63) / 64 * 64 + r.data.size () > r.reclen) throw PruneEx (); }
    bytes b = r.build ();
    MS3Record *m = parse (b, 0);
    bool tail = !(enc <= 5 || enc == 10 || enc == 11); // payload to the end of the record
    bytes out = verify (c, b, m, tail || ((enc == 10 || enc == 11) && n == 0) ? nullptr : &p.v3);
    if (tail) { Rec3 o; o.parse (out); if (o.data.substr (0, p.v3.size ()) != p.v3) fail ("payload starts %s, expected %s", hex (o.data).c_str (), hex (p.v3).c_str ()); }
    msr3_free (&m);
    mcx.done ("repacking");
  }, "13 encodings x both header and payload byte orders x sample counts, record lengths, flag bytes, quality, rate forms, blockettes"});

  cfg.scenarios.push_back ({"v2-steim-words", [=] (Ctx &c) {
    MemCheck mcx;
    // every sequence of word kinds over two frames' worth of positions: kinds at three positions, rest filled
    int ver = 1 + c.pick (2);
    bool dbig = c.flip ();
    int kinds = steim_kinds (ver), where = c.pick (3), nw = th ? 3 : 2;
    std::vector<SteimWord> ws;
    std::vector<int32_t> diffs;
    auto word = [&] (int k) {
      SteimWord w; w.kind = k;
      for (int i = 0; i < steim_per (ver, k); i++) { int bts = steim_bits (ver, k); int32_t v = bts == 32 ? (i ? -70001 : 70001) : ((i % 3 == 0) ? (1 << (bts - 1)) - 1 : i % 3 == 1 ? -(1 << (bts - 1)) : 1); w.d.push_back (v); diffs.push_back (v); }
      ws.push_back (w);
    };
    int before = where == 0 ? 0 : where == 1 ? 12 : 13; // start of frame 0, across the frame border, start of frame 1
    for (int i = 0; i < before; i++) word (1 + i % (kinds - 1));
    for (int i = 0; i < nw; i++) word (1 + c.pick (kinds - 1));
    for (int i = 0; i < 4; i++) word (1);
    std::vector<int32_t> v; uint32_t cur = 1000;
    for (size_t i = 0; i < diffs.size (); i++) { if (i) cur += (uint32_t)diffs[i]; v.push_back ((int32_t)cur); }
    Rec2 r; r.big = c.flip ();
    r.data = steim_frames (ver, ws, v.front (), v.back (), dbig);
    bytes be = steim_frames (ver, ws, v.front (), v.back (), true);
    r.numsamples = v.size ();
    bool nob = c.flip () && ver == 1; // without blockette 1000: unknown encoding, byte order of the header
    if (nob) { if (r.big != dbig) throw PruneEx (); }
    else r.blks = {r.b1000 (9 + ver, dbig, 9)};
    r.reclen = 512;
    // samples that do not begin at a frame border of the record: what follows the last whole frame is not part of one
    int off = where == 0 && !nob ? c.one<int> ({0, 72, 80, 100}) : 0; if (off) r.dataoffset = off;
    bytes b = r.build ();
    MS3Record *m = parse (b, MSF_ATENDOFFILE);
    bytes out;
    if (nob)
    {
      // compare with the same record that states its encoding
      Out o = repack (m, 1000);
      Rec3 q; bytes e = q.parse (o.b);
      if (o.rc <= 0 || e.size ()) fail ("record without blockette 1000: %d %s", o.rc, e.c_str ());
      if (q.encoding != 10) fail ("record without blockette 1000 became encoding %d", q.encoding);
      SteimOut d = steim_decode (q.data, 1, v.size (), true);
      if (d.err.size () || d.v != v) fail ("record without blockette 1000 decodes to other samples: %s", d.err.c_str ());
      c.nontriv ();
    }
    else
    {
      out = verify (c, b, m, off ? nullptr : &be);
      SteimOut d = steim_decode (Rec3 (be.size () ? [&] { Rec3 q; q.parse (out); return q; } () : Rec3 ()).data.substr (0, be.size ()), ver, v.size (), true);
      if (d.err.size () || d.v != v) fail ("independent decoding of the result: %s", d.err.size () ? d.err.c_str () : "other samples");
    }
    msr3_free (&m);
    mcx.done ("repacking");
  }, "version 2 Steim 1 and 2 in both byte orders: every sequence of 2 (thorough 3) word kinds at the start, across the frame border and in the second frame"});

  cfg.scenarios.push_back ({"destination", [=] (Ctx &c) {
    MemCheck mcx;
    int kind = c.pick (6);
    bytes b;
    if (kind < 3) { Rec3 r; r.extra = kind == 1 ? "{\"A\":1}" : ""; r.sid = kind == 2 ? "X" : "FDSN:XX_TEST__L_H_Z"; if (kind < 2) { r.data = enc_plain (3, {1, 2, 3}, false); r.numsamples = 3; } b = r.build (); }
    else { Rec2 r; r.reclen = 256; r.blks = {r.b1000 (kind == 3 ? 3 : 11, 1, 8)}; if (kind == 5) r.blks.push_back (r.b1001 (1, 2)); std::vector<int32_t> v = {1, 2, 3, 4}; r.data = kind == 3 ? enc_plain (3, {1, 2, 3, 4}, true) : steim_encode (2, v, true); r.numsamples = 4; b = r.build (); }
    MS3Record *m = parse (b, c.flip () ? MSF_UNPACKDATA : 0);
    Out full = repack (m, 1000);
    if (full.rc <= 0) fail ("repacking returned %d", full.rc);
    size_t n = c.pick (full.rc + 4);
    Out o = repack (m, n);
    c.step (2);
    if (n < (size_t)full.rc) { if (o.rc != -1) fail ("destination of %zu bytes for a record of %d: %d", n, full.rc, o.rc); }
    else if (o.b != full.b) fail ("destination of %zu bytes for a record of %d: %d", n, full.rc, o.rc);
    else c.nontriv ();
    msr3_free (&m);
    mcx.done ("repacking");
  }, "every destination size from 0 to beyond the result in exactly sized memory x 6 records"});

  // header values changed after parsing: payload still from the original record
  cfg.scenarios.push_back ({"changed", [=] (Ctx &c) {
    MemCheck mcx;
    bytes b; bytes pay;
    bool v2 = c.flip ();
    if (v2) { Rec2 r; r.blks = {r.b1000 (1, 1, 9), r.b1001 (5, 0)}; r.data = enc_plain (1, {1, -2, 3}, true); r.numsamples = 3; b = r.build (); pay = enc_plain (1, {1, -2, 3}, false); }
    else { Rec3 r; r.encoding = 4; r.extra = "{\"FDSN\":{\"Time\":{\"Quality\":5}}}"; r.data = pay = enc_plain (4, {1.5, -2, 3}, false); r.numsamples = 3; b = r.build (); }
    MS3Record *m = parse (b, 0);
    int what = c.pick (7);
    bytes sid = m->sid;
    switch (what)
    {
    case 0: strcpy (m->sid, "X"); break;
    case 1: strcpy (m->sid, "FDSN:NETW_STATI_LOCATION_B_S_SS"); break;
    case 2: m->starttime += 86400LL * 1000000000LL * 365 + 1; break;
    case 3: m->pubversion = 9; m->flags = 0x05; break;
    case 4: m->samprate = -4; break;
    case 5: { int t = 1; if (mseh_set_ptr_r (m, "/A/B", &t, 'b', NULL)) fail ("extra header"); break; }
    case 6: mseh_replace (m, NULL); break;
    }
    m->pubversion = m->pubversion;
    Out o = repack (m, 2000);
    c.step ();
    if (o.rc <= 0) fail ("repacking a changed record returned %d", o.rc);
    Rec3 r; bytes e = r.parse (o.b);
    if (e.size ()) fail ("result is not valid: %s", e.c_str ());
    if (r.sid != m->sid || r.start () != m->starttime || !same_rate (r.samprate, m->samprate) || r.flags != m->flags || r.pubver != m->pubversion || r.extra != json (m)) fail ("changed header values not in the result");
    if (r.data != pay || r.numsamples != 3) fail ("payload %s, expected %s", hex (r.data).c_str (), hex (pay).c_str ());
    c.nontriv (); c.state (Hash ().s (o.b));
    msr3_free (&m);
    mcx.done ("repacking");
  }, "identifier, time, version and flags, rate, extra headers changed after parsing x both formats"});

  // repacking again and repacking what the library packed
  cfg.scenarios.push_back ({"chain", [=] (Ctx &c) {
    MemCheck mcx;
    int enc = c.one<int> ({0, 1, 3, 4, 5, 10, 11});
    int n = c.one<int> ({1, 5, 90});
    MS3Record *m = msr3_init (NULL);
    strcpy (m->sid, "FDSN:XX_TEST__L_H_Z"); m->starttime = 1600000000000000000LL + 123456000; m->samprate = 20; m->pubversion = 2; m->encoding = enc; m->reclen = 512;
    std::vector<int32_t> iv; std::vector<float> fv; std::vector<double> dv; bytes tv;
    for (int i = 0; i < n; i++) { iv.push_back (i * i % 91 - 40); fv.push_back (i * 0.5f - 3); dv.push_back (i * 0.25 - 7); tv += 'a' + i % 26; }
    m->sampletype = enc == 0 ? 't' : enc == 4 ? 'f' : enc == 5 ? 'd' : 'i';
    m->datasamples = enc == 0 ? (void *)tv.data () : enc == 4 ? (void *)fv.data () : enc == 5 ? (void *)dv.data () : (void *)iv.data ();
    m->numsamples = n;
    int ver = c.flip () ? MSF_PACKVER2 : 0;
    Packed p = pack_all (m, MSF_FLUSHDATA | ver);
    m->datasamples = NULL; msr3_free (&m);
    if (p.rc < 1) fail ("packing returned %d", p.rc);
    for (auto &b : p.recs)
    {
      MS3Record *a = parse (b, 0);
      bytes one = verify (c, b, a, nullptr);
      msr3_free (&a);
      a = parse (one, MSF_VALIDATECRC);
      bytes two = verify (c, one, a, nullptr);
      msr3_free (&a);
      if (one != two) fail ("repacking a repacked record changed it");
      if (!ver && one != b) fail ("repacking a version 3 record changed it");
    }
    mcx.done ("repacking");
  }, "records packed by the library in both formats and 7 encodings, repacked twice"});
  return run (argc, argv, cfg);
}
