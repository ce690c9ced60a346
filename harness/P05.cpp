// P05: whatever the bytes, every access stays inside the buffer supplied, everything ends and is released, and what is
// returned lies inside the bytes supplied.  Buffers are exactly sized heap blocks under a memory-error detector.
#include "ref.hpp"
using namespace mc; using namespace ref;

static void discard (char *r, int l, void *h) { volatile char x = 0; for (int i = 0; i < l; i++) x ^= r[i]; (*(int *)h)++; }

static void check_record (const MS3Record *m, size_t avail, uint32_t flags)
{
  if (m->reclen < MINRECLEN || (size_t)m->reclen > avail) fail ("record length %d from %zu bytes", m->reclen, avail);
  uint32_t off = 0, size = 0;
  if (msr3_data_bounds (m, &off, &size) == 0 && size && (uint64_t)off + size > (uint64_t)m->reclen) fail ("payload of %u bytes at %u of a record of %d bytes", size, off, m->reclen);
  if (m->datalength > (uint32_t)m->reclen) fail ("payload length %u of a record of %d bytes", m->datalength, m->reclen);
  if (m->extralength && (!m->extra || m->extra[m->extralength])) fail ("extra headers of %d bytes are not terminated", m->extralength);
  if (m->numsamples < 0 || m->numsamples > m->samplecnt) fail ("%lld samples decoded, %lld declared", (long long)m->numsamples, (long long)m->samplecnt);
  if (m->numsamples && (!m->datasamples || m->datasize < (uint64_t)m->numsamples * ms_samplesize (m->sampletype))) fail ("%lld samples in %llu bytes", (long long)m->numsamples, (unsigned long long)m->datasize);
  if (strnlen (m->sid, sizeof m->sid) >= sizeof m->sid) fail ("source identifier not terminated");
  const char *s = (const char *)m->datasamples; volatile char x = 0;
  for (int64_t i = 0; i < (int64_t)m->numsamples * ms_samplesize (m->sampletype); i++) x ^= s[i];
  if (!(flags & MSF_UNPACKDATA) && m->numsamples) fail ("samples without a request to unpack");
}
static const char *PATHS[] = {"/FDSN/Time/Quality", "/FDSN/Event/Detection", "/FDSN/Clock/Model", "/FDSN", "", "/a", "/0"};
// everything a user may do with a record
static void use_record (MS3Record *m, size_t avail, bool full)
{
  if (msr3_unpack_data (m, full ? 3 : 0) > m->samplecnt) fail ("more samples than declared");
  check_record (m, avail, MSF_UNPACKDATA);
  for (int d = 0; d < (full ? 4 : 0); d++) msr3_print (m, d);
  mseh_print (m, 2);
  msr3_endtime (m); msr3_sampratehz (m); msr3_nsperiod (m);
  for (const char *p : PATHS)
  {
    double d; int64_t i; int b;
    for (uint32_t ml : {1u, 4u, 64u})
    {
      char *s = (char *)malloc (ml); memset (s, 'x', ml);
      if (mseh_get_ptr_r (m, p, s, 's', ml, NULL) == 0 && !memchr (s, 0, ml)) fail ("string at %s not terminated within %u bytes", p, ml);
      free (s);
      if (!full) return;
    }
    mseh_get_ptr_r (m, p, &d, 'n', 0, NULL); mseh_get_ptr_r (m, p, &i, 'i', 0, NULL); mseh_get_ptr_r (m, p, &b, 'b', 0, NULL);
  }
  if (!full) return;
  MS3Record *d = msr3_duplicate (m, 1);
  if (d) { check_record (d, avail, MSF_UNPACKDATA); msr3_free (&d); }
  for (int more : {0, 600})
  {
    size_t n = std::max (64, m->reclen) + more;
    char *out = (char *)malloc (n);
    int l = msr3_repack_mseed3 (m, out, n, 3);
    if (l > (int)n) fail ("%d bytes written to a buffer of %zu", l, n);
    l = msr3_pack_header3 (m, out, n, 3);
    if (l > (int)n) fail ("header of %d bytes written to a buffer of %zu", l, n);
    l = msr3_pack_header2 (m, out, n, 3);
    if (l > (int)n) fail ("header of %d bytes written to a buffer of %zu", l, n);
    free (out);
  }
  if (m->numsamples)
  {
    int64_t n = 0; int cnt = 0;
    int rl = m->reclen; uint8_t fv = m->formatversion; int16_t e = m->encoding;
    for (int v : {2, 3})
    {
      m->reclen = v == 2 ? 512 : rl + 1000;
      msr3_pack (m, discard, &cnt, &n, MSF_FLUSHDATA | (v == 2 ? MSF_PACKVER2 : 0), 3);
      m->reclen = rl; m->formatversion = fv; m->encoding = e;
    }
  }
  int64_t v = 7;
  mseh_set_ptr_r (m, "/FDSN/Time/Quality", &v, 'i', NULL);
  mseh_set_ptr_r (m, "/X/Y", (void *)"{\"a\":1}", 'M', NULL);
  mseh_print (m, 0);
}
static void drive (Ctx &c, const bytes &b, bool full)
{
  MemCheck mck;
  {
    Buf in (b);
    uint8_t fv = 0;
    int64_t det = ms3_detect (in.p, in.n, &fv);
    if (det > 0 && fv != 2 && fv != 3) fail ("detection returned %lld and version %d", (long long)det, fv);
    c.step ();
    MS3Record *reuse = NULL;
    static const uint32_t FL[] = {0, MSF_UNPACKDATA, MSF_VALIDATECRC | MSF_UNPACKDATA, MSF_ATENDOFFILE | MSF_UNPACKDATA};
    for (int k = 0; k < (full ? 4 : 2); k++)
    {
      MS3Record *m = NULL;
      int rv = msr3_parse (in.p, in.n, &m, FL[k], full ? 3 : 0);
      c.step ();
      if (rv == 0)
      {
        if (!m) fail ("success without a record");
        check_record (m, b.size (), FL[k]);
        if (full || k == 1) use_record (m, b.size (), full && k != 1 && k != 2);
        c.nontriv ();
      }
      msr3_free (&m);
      if (!full && k == 0) continue;
      rv = msr3_parse (in.p, in.n, &reuse, FL[k], 0); // into a record used before
      if (rv == 0) check_record (reuse, b.size (), FL[k]);
    }
    msr3_free (&reuse);
    int len = det > 0 && det <= (int64_t)b.size () ? (int)det : (int)b.size ();
    if (len >= MINRECLEN && fv == 3) for (int d = full ? 0 : 2; d < 4; d += full ? 1 : 2) ms_parse_raw3 (in.p, len, d);
    if (len >= 48 && fv == 2) for (int d = full ? 0 : 2; d < 4; d += full ? 1 : 2) ms_parse_raw2 (in.p, len, d, -1);
    if (full)
    {
      if (b.size () >= 48) for (int s : {0, 1}) ms_parse_raw2 (in.p, (int)b.size (), 3, s);
      if (b.size () >= MINRECLEN) ms_parse_raw3 (in.p, (int)b.size (), 3);
      for (uint32_t fl : {(uint32_t)MSF_UNPACKDATA, (uint32_t)(MSF_RECORDLIST | MSF_SKIPNOTDATA)})
      {
        MS3TraceList *l = NULL;
        int64_t n = mstl3_readbuffer (&l, in.p, in.n, 0, fl, NULL, 0);
        if (n > (int64_t)b.size () / MINRECLEN + 1) fail ("%lld records in %zu bytes", (long long)n, b.size ());
        if (l && (fl & MSF_RECORDLIST))
          for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
            for (MS3TraceSeg *s = id->first; s; s = s->next) mstl3_unpack_recordlist (id, s, NULL, 0, 0);
        if (l) { mstl3_printtracelist (l, ISOMONTHDAY, 2, 1, 0); mstl3_free (&l, 1); }
      }
    }
    if (!in.same ()) fail ("the bytes supplied were changed");
  }
  mck.done ("after releasing the results");
  c.state (Hash ().s (b));
}

// ---------------------------------------------------------------- base records
static bytes all_blockettes (bool big, size_t reclen = 1024)
{
  Rec2 r; r.big = big; r.reclen = reclen; r.dataoffset = 704; r.numsamples = 20; r.act = 0x7d; r.io = 0x3f; r.dq = 0xff; r.timecorr = 100;
  for (int t : BLKTYPES) r.blks.push_back (blk_sample (t, big, 3, 1, reclen == 1024 ? 10 : 9));
  std::vector<double> v; for (int i = 0; i < 20; i++) v.push_back (i * 1000);
  r.data = enc_plain (3, v, true);
  return r.build ();
}
static bytes small2 (bool big, int enc, int exp, int order = 1)
{
  Rec2 r; r.big = big; r.reclen = 1 << exp; r.dataoffset = 64; r.blks = {r.b1000 (enc, order, exp), r.b1001 (1, 2)};
  std::vector<int32_t> v; for (int i = 0; i < 15; i++) v.push_back (i * i * (i & 1 ? -3 : 5));
  std::vector<double> d (v.begin (), v.begin () + 7);
  if (enc == 10 || enc == 11) { r.data = steim_encode (enc - 9, v, order); r.numsamples = 15; }
  else if (enc <= 5) { r.data = enc_plain (enc, d, order); r.numsamples = 7; }
  else { r.data = bytes (42, 'd'); r.numsamples = 14; }
  return r.build ();
}
static bytes steim2_noB1000 ()
{
  Rec2 r; r.reclen = 256; r.dataoffset = 128; r.blks = {r.b100 (2.5)};
  std::vector<int32_t> v; for (int i = 0; i < 40; i++) v.push_back (i * i * (i & 1 ? -3 : 5));
  r.data = steim_encode (1, v, true); r.numsamples = 40;
  return r.build ();
}
static bytes v3 (int enc, const bytes &extra)
{
  Rec3 r; r.encoding = enc; r.extra = extra;
  std::vector<int32_t> v; for (int i = 0; i < 15; i++) v.push_back (i * i * (i & 1 ? -3 : 5));
  std::vector<double> d (v.begin (), v.begin () + 7);
  if (enc == 10 || enc == 11) { r.data = steim_encode (enc - 9, v, true); r.numsamples = 15; }
  else if (enc <= 5) { r.data = enc_plain (enc, d, false); r.numsamples = 7; }
  else { r.data = bytes (42, 'd'); r.numsamples = 14; }
  return r.build ();
}
static const char *XTRA = "{\"FDSN\":{\"Time\":{\"Quality\":50,\"Correction\":0.5},\"Clock\":{\"Model\":\"GPS \\u00e9\"},\"Event\":{\"Begin\":true,\"Detection\":[{\"Type\":\"MURDOCK\",\"MEDSNR\":[1,2,3,4,5,6],\"OnsetTime\":\"2020-01-01T00:00:00Z\"}]}}}";
static const int NBASE = 26;
static const bytes &base (int k)
{
  static std::vector<bytes> b;
  if (b.empty ())
  {
    b.push_back (all_blockettes (true)); b.push_back (all_blockettes (false));
    b.push_back (steim2_noB1000 ());
    for (int e : {0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 30, 31}) b.push_back (small2 (e & 1, e, e == 10 || e == 11 ? 8 : 7, e != 3));
    b.push_back (small2 (true, 32, 7));
    b.push_back (small2 (false, 11, 8, 0));
    for (int e : {0, 1, 3, 4, 5, 10, 11, 19}) b.push_back (v3 (e, e == 3 ? XTRA : e == 11 ? "{}" : ""));
  }
  return b[k];
}

static const std::vector<uint64_t> VAL16 = {0, 1, 2, 3, 4, 39, 40, 47, 48, 49, 60, 63, 64, 65, 100, 120, 124, 126, 127, 128, 129, 250, 255, 256, 257, 504, 510, 511, 512, 513, 700, 1000, 1020, 1022, 1023, 1024, 2000, 32767, 32768, 0xfffe, 0xffff};

int main (int argc, char **argv)
{
  setup ();
  Config cfg;
  cfg.property = "P05";
  cfg.rule = "an execution takes one byte string through detection, parsing with all flag combinations, unpacking, printing, raw dumps, extra header access, duplication, repacking and buffer reading, in exactly sized heap blocks under AddressSanitizer; transitions are detection and parsing calls; non-trivial: the bytes were accepted as a record";
  cfg.assumptions = {"memory errors are observed by AddressSanitizer (reads and writes outside heap blocks, stack objects and globals)"};
  const char *t = getenv ("VERIF_TIER"); bool deep = t && !strcmp (t, "thorough");

  cfg.scenarios.push_back ({"every byte value", [=] (Ctx &c) {
    int k = c.pick (NBASE); const bytes &b0 = base (k);
    size_t at = c.pick (b0.size ());
    bool full = deep || k >= 2;
    // version 2 with all blockettes: contents beyond the chain are payload
    if (k < 2 && at > 800) return;
    static const int QV[] = {0, 1, 2, 4, 8, 16, 31, 32, 34, 47, 48, 63, 64, 92, 100, 127, 128, 129, 200, 224, 240, 254, 255};
    bool every = deep || (at < 48 && k >= 2) || b0[0] == 'M';
    int n = every ? 256 : (int)(sizeof QV / sizeof *QV);
    for (int i = 0; i < n; i++)
    {
      bytes b = b0; b[at] = (char)(every ? i : QV[i]);
      drive (c, b, full && (deep || i % 16 == at % 16));
    }
  }, "26 base records (version 2 in both byte orders with all blockettes, without blockette 1000, with every encoding; version 3 with extra headers and every encoding): every position x every byte value (quick: boundary values outside the headers)"});
  cfg.scenarios.push_back ({"truncation", [=] (Ctx &c) {
    const bytes &b = base (c.pick (NBASE));
    size_t n = c.pick (b.size () + 1);
    drive (c, b.substr (0, n), true);
    // the same bytes claimed as a whole record: stated length cut too
    bytes t = b.substr (0, n);
    if (n >= 40 && t[0] == 'M')
    {
      Rec3 r; r.parse (b);
      size_t rest = n - 40, sl = std::min (rest, r.sid.size ()), xl = std::min (rest - sl, r.extra.size ());
      set (t, 33, sl, 1, 0); set (t, 34, xl, 2, 0); set (t, 36, rest - sl - xl, 4, 0);
      drive (c, t, true);
    }
  }, "every truncation length of all base records, and for version 3 also with stated lengths cut to match"});
  cfg.scenarios.push_back ({"version 2 field pairs", [=] (Ctx &c) {
    int k = c.pick (3); bytes b = k == 0 ? all_blockettes (true) : k == 1 ? small2 (false, 11, 8) : small2 (true, 3, 7);
    bool big = k != 1;
    struct F { int off, n; };
    // numsamples, data offset, blockette offset, count, first next, second next, second type, exponent, encoding, byte order, frames
    static const F A[] = {{30, 2}, {44, 2}, {46, 2}, {39, 1}, {50, 2}, {48, 2}, {20, 2}, {32, 2}};
    std::vector<F> fs (A, A + 8);
    int b1000 = -1, at = 48, prev = 0;
    for (int i = 0; i < 20 && at && at + 8 <= (int)b.size (); i++) { if (get (b, at, 2, big) == 1000) b1000 = at; if (i == 1) { fs.push_back ({at, 2}); fs.push_back ({at + 2, 2}); } prev = at; at = (int)get (b, at + 2, 2, big); }
    fs.push_back ({prev, 2}); fs.push_back ({prev + 2, 2});
    if (b1000 > 0) { fs.push_back ({b1000 + 4, 1}); fs.push_back ({b1000 + 6, 1}); fs.push_back ({b1000 + 2, 2}); }
    int i = c.pick (fs.size ()), j = c.pick (fs.size ());
    if (j <= i) return;
    static const std::vector<uint64_t> VQ = {0, 1, 4, 40, 47, 48, 64, 100, 127, 128, 129, 255, 256, 500, 511, 512, 1000, 1020, 1023, 1024, 2000, 32768, 0xffff};
    const std::vector<uint64_t> &VAL = deep ? VAL16 : VQ;
    uint64_t vi = c.of (VAL);
    for (uint64_t vj : VAL)
    {
      bytes x = b; set (x, fs[i].off, vi, fs[i].n, big); set (x, fs[j].off, vj, fs[j].n, big);
      drive (c, x, deep || (vi + vj) % 16 == 0);
    }
  }, "three version 2 records: all pairs of length, offset, count and type fields over 23 (thorough 41) boundary values each"});
  cfg.scenarios.push_back ({"blockette at the end of the record", [=] (Ctx &c) {
    // every blockette type with its start at every offset so that it ends before, at or beyond the end of the record
    int ti = c.pick (14); int type = BLKTYPES[ti]; bool big = c.flip (); int exp = 7 + c.pick (2); int stated = c.flip ();
    int reclen = 1 << exp;
    int start = c.pick (reclen);
    for (int second = 0; second < 3; second++)
    {
      Rec2 r; r.big = big; r.reclen = reclen; r.numsamples = 4;
      if (stated) r.blks = {r.b1000 (3, 1, exp)};
      bytes b = r.build (), k = blk_sample (type, big, 3, 1, exp);
      if (second == 1) set (k, 2, start + 4, 2, big); else if (second == 2) set (k, 2, 0xffff, 2, big);
      if (start < 48 && stated) { }
      b.replace (start, std::min<size_t> (k.size (), reclen - start), k.substr (0, std::min<size_t> (k.size (), reclen - start)));
      set (b, stated && start >= 56 ? 50 : 46, start, 2, big);
      if (type == 2000)
        for (int l : {0, 1, 4, 5, 6, 15, 24, 100, 0x7fff, 0xffff}) { bytes x = b; if (start + 6 <= reclen) set (x, start + 4, l, 2, big); drive (c, x, true); }
      drive (c, b, true);
    }
  }, "all 14 blockette types starting at every offset of records of 128 and 256 bytes, in both byte orders, with and without a preceding blockette 1000, with next offsets none, inside and far beyond"});
  cfg.scenarios.push_back ({"blockette text", [=] (Ctx &c) {
    // text fields without any terminator, and control characters
    int ti = c.pick (14); bool big = c.flip (); int fill = c.pick (6);
    static const int F[] = {'A', 0xff, '"', '\\', 1, ' '};
    Rec2 r; r.big = big; r.reclen = 512; r.dataoffset = 448; r.blks = {r.b1000 (3, 1, 9), blk_sample (BLKTYPES[ti], big)};
    bytes &k = r.blks[1]; int type = BLKTYPES[ti];
    struct T { int t, o, n; };
    static const T TX[] = {{200, 28, 24}, {201, 28, 8}, {201, 36, 24}, {300, 28, 3}, {300, 36, 24}, {310, 28, 3}, {310, 36, 24}, {320, 24, 3}, {320, 32, 32}, {390, 24, 3}, {500, 24, 176}};
    for (auto &x : TX) if (x.t == type) k.replace (x.o, x.n, bytes (x.n, (char)F[fill]));
    for (int q = 0; q < 4; q++)
    {
      Rec2 s = r;
      bytes n = bytes (5, q == 0 ? 'T' : (char)F[fill]);
      s.sta = n; s.loc = n; s.chan = n; s.net = n; s.act = 255; s.io = 255; s.dq = 255;
      if (q == 1) { s.sta = ""; s.loc = ""; s.chan = ""; s.net = ""; }
      if (q == 2) for (int j = 0; j < 5; j++) s.blks.push_back (k), s.reclen = 2048, s.blks[0] = s.b1000 (3, 1, 11), s.dataoffset = 1984;
      drive (c, s.build (), true);
    }
  }, "all blockette types with every text field filled completely with six kinds of bytes, codes of the same, repeated blockettes"});
  cfg.scenarios.push_back ({"version 3 lengths", [=] (Ctx &c) {
    static const int E[] = {0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 19, 30, 31, 32, 100, 127, 128, 255};
    static const int SL[] = {0, 1, 21, 62, 63, 64, 65, 127, 255};
    int e = c.of (E), sl = c.of (SL), xl = c.pick (5), dl = c.pick (18);
    static const int XL[] = {0, 1, 2, 40, 255}; static const int DL[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 63, 64, 65, 127, 128, 200};
    static const uint32_t NS[] = {0, 1, 2, 3, 4, 8, 16, 63, 64, 65, 200, 0x7fffffff, 0x80000000, 0xffffffff};
    for (uint32_t ns : NS)
      for (int fill : {0x55, 0xff})
      {
        if (ns > 1000000 && (e < 10 && e != 3) && !deep) continue;
        if (ns == 0x7fffffff) continue; // 8 GB of output is a legitimate request the machine may or may not satisfy
        Rec3 r; r.encoding = e; r.sid = bytes (sl, 'S'); r.extra = xl > 1 ? "{" + bytes (XL[xl] - 2, ' ') + "}" : bytes (XL[xl], '{'); r.data = bytes (DL[dl], (char)fill); r.numsamples = ns;
        bytes b = r.build ();
        drive (c, b, fill == 0x55);
        if (fill == 0x55 && ns == 4)
          for (int d : {-1, 1, 3})
          { // stated lengths off by a little
            for (int fld = 0; fld < 3; fld++)
            {
              bytes x = b; int o = fld == 0 ? 33 : fld == 1 ? 34 : 36, w = fld == 0 ? 1 : fld == 1 ? 2 : 4;
              set (x, o, get (x, o, w, 0) + d, w, 0);
              drive (c, x, true);
            }
          }
      }
  }, "19 encoding values x 9 identifier lengths x 5 extra lengths x 18 payload lengths x 13 sample counts x 2 fillings, and lengths off by one"});
  cfg.scenarios.push_back ({"decoding buffers", [=] (Ctx &c) {
    int e = c.pick (256); int al = c.pick (2);
    if (e > 33 && e != 100 && e != 255 && !deep) return;
    static const int IN[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 24, 60, 63, 64, 65, 68, 72, 76, 127, 128, 129, 192};
    static const int CNT[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 16, 20, 91, 92, 100, 200, 1000};
    int in = c.of (IN);
    for (int cnt : CNT)
      for (int fill = 0; fill < 6; fill++)
        for (int sw = 0; sw < 2; sw++)
        {
          bytes d (in, 0);
          for (int i = 0; i < in; i++) d[i] = (char)(fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0x55 : fill == 3 ? 0xaa : fill == 4 ? (i * 37 + 11) : (i % 64 < 4 ? 0x15 * (i % 4 + 3) : 0x80 + i));
          uint8_t ss = 0; char st = 0; ms_encoding_sizetype (e, &ss, &st);
          for (int so : {0, -1, -8})
          {
            int64_t osz = (int64_t)cnt * ss + so; if (osz < 0) continue;
            char *p = (char *)malloc (in + al + (in == 0)), *o = (char *)malloc (osz + (osz == 0)); memcpy (p + al, d.data (), in);
            char ty = 0;
            int64_t n = ms_decode_data (p + al, in, e, cnt, o, osz, &ty, sw, "X", fill == 4 ? 3 : 0);
            c.step ();
            if (n > cnt) fail ("encoding %d, %d bytes: %lld samples of %d", e, in, (long long)n, cnt);
            if (n > 0 && n * ms_samplesize (ty) > osz) fail ("encoding %d: %lld samples into %lld bytes", e, (long long)n, (long long)osz);
            if (so && ss && cnt && n > 0) fail ("encoding %d: output for %d samples too small by %d bytes, returned %lld", e, cnt, -so, (long long)n);
            free (p); free (o);
          }
          c.state (Hash ().i (e).i (in).i (cnt).i (fill).i (sw));
        }
    c.nontriv ();
  }, "every encoding value x 25 payload lengths x 20 sample counts x 6 fillings x byte order x alignment x output sizes exact and too small"});
  cfg.scenarios.push_back ({"Steim control words", [=] (Ctx &c) {
    // every byte of the control word, every dnib, small frames cut anywhere
    int ver = 1 + c.pick (2), order = c.flip (), w0b = c.pick (4), v = c.pick (256), cutw = c.pick (6);
    static const int CUT[] = {64, 128, 63, 127, 4, 12};
    for (int body = 0; body < 4; body++)
    {
      bytes fr;
      for (int f = 0; f < 2; f++)
      {
        uint32_t w0 = (f == 0 ? 0x00 : 0xff) * 0x1000001u; w0 = f ? 0x15555555 : 0x01111111;
        w0 = (w0 & ~(0xffu << 8 * w0b)) | (uint32_t)v << 8 * w0b;
        put (fr, w0, 4, order);
        for (int w = 1; w < 16; w++) put (fr, ((uint32_t)body << 30) | (w * 0x01234567u & 0x3fffffff), 4, order);
      }
      for (int cnt : {1, 15, 92, 105, 130, 217, 1000})
      {
        Rec3 r; r.encoding = 9 + ver; r.data = fr.substr (0, CUT[cutw]); r.numsamples = cnt;
        drive (c, r.build (), false);
        bytes d = r.data;
        char *p = (char *)malloc (d.size ()), *o = (char *)malloc (cnt * 4), ty; memcpy (p, d.data (), d.size ());
        int64_t n = ms_decode_data (p, d.size (), 9 + ver, cnt, o, cnt * 4, &ty, order, "X", 3);
        if (n > cnt) fail ("%lld samples of %d", (long long)n, cnt);
        free (p); free (o);
      }
    }
  }, "both Steim versions, every value of every control word byte x all sub-codes x cut frames x sample counts below, at and above the contents"});
  cfg.scenarios.push_back ({"extra header text", [=] (Ctx &c) {
    static const char A[] = "{}[]\":,\\0au-e.";
    int L = deep ? 5 : 4; int len = c.pick (L + 1);
    bytes s; for (int i = 0; i < len; i++) s += A[c.pick (14)];
    for (int wrap = 0; wrap < 3; wrap++)
    {
      bytes x = wrap == 0 ? s : wrap == 1 ? "{\"FDSN\":" + s + "}" : "{\"a\":\"" + s + "\"}";
      if (x.empty ()) continue;
      Rec3 r; r.extra = x; r.encoding = 0; r.data = "T"; r.numsamples = 1;
      drive (c, r.build (), wrap == 1);
    }
  }, "all strings over 14 JSON symbols up to length 4 (thorough 5) as extra headers, as the value of FDSN and inside a string"});
  cfg.scenarios.push_back ({"extra header bytes", [=] (Ctx &c) {
    static const int B[] = {0, 1, 0x1f, '"', '\\', '/', 'u', 'd', '8', '0', 0x7f, 0x80, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf8, 0xff};
    bytes s; int len = c.pick (deep ? 5 : 4); for (int i = 0; i < len; i++) s += (char)c.of (B);
    for (int wrap = 0; wrap < 4; wrap++)
    {
      bytes x = wrap == 0 ? "{\"FDSN\":{\"Clock\":{\"Model\":\"" + s + "\"}}}" : wrap == 1 ? "{\"" + s + "\":1}" : wrap == 2 ? "{\"a\":1}" + s : "{\"a\":\"" + s;
      Rec3 r; r.extra = x; r.encoding = 0; r.data = ""; r.numsamples = 0;
      drive (c, r.build (), wrap == 0);
    }
  }, "all strings over 21 bytes incl. NUL, escapes and UTF-8 lead bytes up to length 3 (thorough 4) in values, keys, after and at the end of the document"});
  cfg.scenarios.push_back ({"extra header pointers", [=] (Ctx &c) {
    static const char A[] = "/~01a-"; bytes p; int len = c.pick (deep ? 7 : 6); for (int i = 0; i < len; i++) p += A[c.pick (6)];
    static const char *DOC[] = {"", "{}", "{\"a\":[1,{\"0\":\"x\"},[]],\"\":{\"a\":1},\"0\":\"s\",\"~/\":true}", "[1,2]", "\"s\"", "{\"a\":{\"a\":{\"a\":\"long string value\"}}}"};
    for (const char *doc : DOC)
    {
      MemCheck mk;
      MS3Record *m = msr3_init (NULL);
      if (*doc && mseh_replace (m, (char *)doc) < 0) { msr3_free (&m); continue; }
      Buf pp (p + bytes (1, 0));
      for (int shared = 0; shared < 2; shared++)
      {
        LM_PARSED_JSON *ps = NULL, **pps = shared ? &ps : NULL;
        double d = 0.5; int64_t i = 3; int b = 1;
        for (uint32_t ml : {1u, 2u, 5u, 18u}) { char *s = (char *)malloc (ml); memset (s, 'x', ml); if (mseh_get_ptr_r (m, pp.p, s, 's', ml, pps) == 0 && !memchr (s, 0, ml)) fail ("string not terminated"); free (s); }
        mseh_get_ptr_r (m, pp.p, &d, 'n', 0, pps); mseh_get_ptr_r (m, pp.p, &i, 'i', 0, pps); mseh_get_ptr_r (m, pp.p, &b, 'b', 0, pps); mseh_get_ptr_r (m, pp.p, NULL, 0, 0, pps);
        mseh_set_ptr_r (m, pp.p, &i, 'i', pps); mseh_set_ptr_r (m, pp.p, (void *)"txt", 's', pps); mseh_set_ptr_r (m, pp.p, &b, 'b', pps);
        mseh_set_ptr_r (m, pp.p, (void *)"{\"k\":null}", 'M', pps); mseh_set_ptr_r (m, pp.p, (void *)"{\"q\"", 'M', pps); mseh_set_ptr_r (m, pp.p, (void *)"[1]", 'M', pps);
        if (shared) { mseh_serialize (m, pps); mseh_free_parsestate (pps); }
        c.step ();
      }
      msr3_free (&m);
      mk.done ("extra header access");
      c.state (Hash ().s (p).s (doc));
    }
    c.nontriv ();
  }, "all JSON pointers over 6 symbols up to length 5 (thorough 6) on six documents: every get and set kind, direct and with shared parse state"});
  cfg.scenarios.push_back ({"version 2 headers from extra headers", [=] (Ctx &c) {
    static const char *K[] = {"Event/Begin", "Event/End", "Event/InProgress", "Time/LeapSecond", "Time/Correction", "Time/Quality", "Time/Exception", "Clock/Model", "DataQuality", "Flags/Glitches", "Event/Detection", "Calibration/Sequence", "Time", "Event", "Calibration", ""};
    static const char *EK[] = {"Type", "VCOCorrection", "Time", "ReceptionQuality", "Count", "ClockStatus", "SignalAmplitude", "Wave", "Units", "OnsetTime", "Detector", "MEDSNR", "MEDLookback", "MEDPickAlgorithm", "BeginTime", "EndTime", "Steps", "Trigger", "Continued", "Duration", "InputChannel", "ReferenceAmplitude", "Coupling", "Rolloff", "Noise", "AmplitudeRange", "SinePeriod"};
    static const char *V[] = {"null", "true", "0", "-1", "255", "256", "65536", "1e300", "-1e300", "18446744073709551615", "\"\"", "\"MURDOCK\"", "\"STEP\"", "\"SINE\"", "\"PSEUDORANDOM\"", "\"GENERIC\"", "\"ABORT\"", "\"2020-01-01T00:00:00Z\"", "\"12345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890\"", "[]", "[1]", "[1,2,3,4,5,6,7]", "[{}]", "[[]]", "{}", "[null]", "[\"x\",1,{}]"};
    int mode = c.pick (3), vi = c.pick (27);
    auto nest = [] (const bytes &path, const bytes &v) { bytes o = v, p = path; while (!p.empty ()) { size_t s = p.rfind ('/'); bytes k = s == bytes::npos ? p : p.substr (s + 1); o = "{\"" + k + "\":" + o + "}"; p = s == bytes::npos ? "" : p.substr (0, s); } return "{\"FDSN\":" + o + "}"; };
    std::vector<bytes> docs;
    if (mode == 0) for (auto k : K) docs.push_back (nest (k, V[vi]));
    else
    {
      static const char *TY[] = {"\"MURDOCK\"", "\"GENERIC\"", "\"STEP\"", "\"SINE\"", "\"PSEUDORANDOM\"", "\"ABORT\"", "\"MISSING\"", "1"};
      int ty = c.pick (8); const char *ar = c.of (std::vector<const char *>{"Time/Exception", "Event/Detection", "Calibration/Sequence"});
      for (auto k : EK)
      {
        bytes one = bytes ("{\"Type\":") + TY[ty] + ",\"" + k + "\":" + V[vi] + ",\"Time\":\"2020-01-01T00:00:00Z\",\"OnsetTime\":\"2020-01-01T00:00:00Z\",\"BeginTime\":\"2020-01-01T00:00:00Z\",\"EndTime\":\"2020-01-01T00:00:00Z\"}";
        bytes bare = bytes ("{\"") + k + "\":" + V[vi] + ",\"Type\":" + TY[ty] + "}";
        docs.push_back (nest (ar, "[" + (mode == 1 ? one : bare) + "]"));
        if (vi == 0) { bytes many; for (int i = 0; i < 12; i++) many += (i ? "," : "") + one; docs.push_back (nest (ar, "[" + many + "]")); }
      }
    }
    for (auto &x : docs)
    {
      MemCheck mk;
      MS3Record *m = msr3_init (NULL);
      strcpy (m->sid, "FDSN:XX_TEST__L_H_Z"); m->samprate = 1; m->starttime = 0; m->encoding = 3; m->pubversion = 1; m->formatversion = 2;
      m->extra = (char *)libmseed_memory.malloc (x.size () + 1); memcpy (m->extra, x.c_str (), x.size () + 1); m->extralength = x.size ();
      int32_t d[3] = {1, 2, 3}; m->datasamples = d; m->numsamples = m->samplecnt = 3; m->sampletype = 'i'; m->datasize = 12;
      for (int rl : {128, 256, 512, 4096})
      {
        char *out = (char *)malloc (rl); m->reclen = rl;
        int l = msr3_pack_header2 (m, out, rl, 0);
        if (l > rl) fail ("header of %d bytes in a buffer of %d", l, rl);
        free (out);
        int64_t n; int cnt = 0;
        msr3_pack (m, discard, &cnt, &n, MSF_FLUSHDATA | MSF_PACKVER2, 0);
        c.step ();
      }
      m->datasamples = NULL; m->datasize = 0; m->numsamples = 0;
      msr3_free (&m);
      mk.done ("packing");
      c.state (Hash ().s (x));
    }
    c.nontriv ();
  }, "27 values of every JSON type at every extra header path the version 2 writer reads, alone and in entries of every type, packed into records of four lengths"});
  cfg.scenarios.push_back ({"deep and long documents", [=] (Ctx &c) {
    int kind = c.pick (6); int n = c.of (std::vector<int>{10, 1000, 30000});
    bytes x;
    if (kind == 0) x = bytes (n, '[') + bytes (n, ']');
    if (kind == 1) { for (int i = 0; i < n / 5; i++) x += "{\"a\":"; x += "1" + bytes (n / 5, '}'); }
    if (kind == 2) x = "{\"" + bytes (n, 'k') + "\":1}";
    if (kind == 3) x = "{\"a\":\"" + bytes (n, 'v') + "\"}";
    if (kind == 4) x = bytes (n, '{');
    if (kind == 5) { x = "{\"FDSN\":{\"Event\":{\"Detection\":["; for (int i = 0; i < n / 30; i++) x += (i ? ",{\"Type\":\"GENERIC\"}" : "{\"Type\":\"GENERIC\"}"); x += "]}}}"; }
    if (x.size () > 65535) x.resize (65535);
    Rec3 r; r.extra = x; r.encoding = 0; r.data = "T"; r.numsamples = 1;
    drive (c, r.build (), true);
  }, "nesting up to 30000 levels, keys and strings up to 30000 bytes, many entries"});
  return run (argc, argv, cfg);
}
