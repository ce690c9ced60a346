// P04: CRCs written are right for every length and alignment; with validation on no corrupted version 3 record of the
// bounded fault space is accepted.
#include "ref.hpp"
using namespace mc; using namespace ref;

static bytes pattern (size_t n, int kind)
{
  bytes b;
  uint32_t x = 12345;
  for (size_t i = 0; i < n; i++)
  {
    x = x * 1664525 + 1013904223;
    b += kind == 0 ? (char)0 : kind == 1 ? (char)0xff : (char)(x >> 24);
  }
  return b;
}
static Rec3 make (int which)
{
  Rec3 r;
  r.settime (1600000000123456789LL);
  switch (which)
  {
  case 0: r.sid = ""; r.data = ""; r.numsamples = 0; break; // 40 bytes: header only
  case 1: r.encoding = 1; r.data = pattern (6, 2); r.numsamples = 3; break;
  case 2: r.extra = "{\"FDSN\":{\"Time\":{\"Quality\":100}}}"; r.encoding = 0; r.data = "hello, world"; r.numsamples = 12; break;
  case 3: r.encoding = 10; r.data = steim_encode (1, {1, 2, 3, 4, 100, 5000}, true); r.numsamples = 6; break;
  case 4: r.data = pattern (400, 0); r.numsamples = 100; r.flags = 4; break;
  }
  return r;
}
// independent judgement of a corrupted buffer: -1 unrecognisable, 0 whole record of the stated length, else stated length
static int64_t judge (const bytes &b, bool &sidfits)
{
  sidfits = true;
  if (b.size () < 40 || b[0] != 'M' || b[1] != 'S' || b[2] != 3 || (uint8_t)b[12] > 23 || (uint8_t)b[13] > 59 || (uint8_t)b[14] > 60) return -1;
  sidfits = (uint8_t)b[33] < LM_SIDLEN;
  return 40 + (int64_t)get (b, 33, 1, 0) + (int64_t)get (b, 34, 2, 0) + (int64_t)get (b, 36, 4, 0);
}
static void corrupt_check (Ctx &c, const bytes &bad, const char *what)
{
  Buf in (bad);
  MS3Record *m = NULL;
  int rv = msr3_parse (in.p, in.n, &m, MSF_VALIDATECRC, 0);
  c.step ();
  if (!in.same ()) fail ("%s: parsing changed the record bytes", what);
  if (rv == 0) fail ("%s: corrupted record accepted: %s", what, hex (bad, 80).c_str ());
  if (m) fail ("%s: a record was returned with error %d", what, rv);
  bool sidfits; int64_t len = judge (bad, sidfits);
  bool ok;
  if (len < 0) ok = rv == MS_NOTSEED || rv == MINRECLEN; // may look like the start of a version 2 record of unknown length
  else if (len > MAXRECLEN) ok = rv == MS_OUTOFRANGE;
  else if (len > (int64_t)bad.size ()) ok = rv > 0;
  else if (!sidfits) ok = rv < 0;
  else ok = rv == MS_INVALIDCRC;
  if (!ok) fail ("%s: corrupted record (stated length %lld of %zu) reported as %d: %s", what, (long long)len, bad.size (), rv, hex (bad, 80).c_str ());
}

int main (int argc, char **argv)
{
  setup ();
  Config cfg;
  cfg.property = "P04";
  cfg.rule = "transitions are corrupted records parsed and records checked; distinct outcomes are (record, place, pattern block) tuples; non-trivial: the corrupted bytes are still recognisable as a complete record";
  cfg.assumptions = {"CRC-32C by bitwise definition (polynomial 0x1EDC6F41, reflected, init and final xor all ones), independent of the library's tables",
                     "bursts up to 32 bits: all patterns within windows up to the stated width are enumerated at every bit position; of wider windows the patterns with both end bits set and all combinations of the stated number of further bits"};
  const char *t = getenv ("VERIF_TIER"); bool deep = t && !strcmp (t, "thorough");

  cfg.scenarios.push_back ({"CRC function", [=] (Ctx &c) {
    int len = c.pick (deep ? 1200 : 400), al = c.pick (8), kind = c.pick (3);
    bytes b = pattern (len, kind);
    // the block lies at every alignment and ends exactly at the end of its allocation
    char *p = (char *)aligned_alloc (16, ((len + al + 1) + 15) / 16 * 16);
    free (p);
    p = (char *)malloc (len + al ? len + al : 1);
    memcpy (p + al, b.data (), len);
    uint32_t r = ms_crc32c ((uint8_t *)p + al, len, 0);
    uint32_t want = len ? crc32c (b) : 0;
    if (r != want) fail ("CRC of %d bytes at alignment %d is %08x, not %08x", len, al, r, want);
    for (int cut = 1; cut < len; cut += (len < 64 ? 1 : len / 7))
    {
      uint32_t x = ms_crc32c ((uint8_t *)p + al, cut, 0);
      x = ms_crc32c ((uint8_t *)p + al + cut, len - cut, x);
      if (x != want) fail ("CRC of %d bytes in pieces of %d and %d is %08x, not %08x", len, cut, len - cut, x, want);
      c.step ();
    }
    if (memcmp (p + al, b.data (), len)) fail ("CRC changed its input");
    free (p);
    c.step (); c.state (Hash ().i (len).i (al).i (kind)); if (len > 8) c.nontriv ();
  }, "every length 0..399 (thorough 0..1199) at every alignment 0..7 with constant and mixed contents, in one piece and split"});

  cfg.scenarios.push_back ({"records written", [=] (Ctx &c) {
    int enc = c.of (std::vector<int>{0, 1, 3, 4, 5, 10, 11}), nk = c.pick (28), n = nk < 24 ? nk : 50 << (nk - 24), sidk = c.pick (8), ex = c.pick (3); bool viatl = nk > 12 && c.flip ();
    MemCheck mk;
    MS3Record *m = msr3_init (NULL);
    snprintf (m->sid, sizeof m->sid, "FDSN:XX_%s__L_H_Z", bytes (sidk, 'S').c_str ());
    m->formatversion = 3; m->reclen = n > 24 ? 192 : 512; m->encoding = enc; m->samprate = 20; m->pubversion = 1; m->starttime = 1234567890123456789LL;
    static const char *X[] = {"", "{\"a\":1}", "{\"FDSN\":{\"Flags\":{\"Spikes\":true}}}"};
    m->extra = (char *)X[ex]; m->extralength = strlen (X[ex]);
    m->sampletype = enc == 0 ? 't' : enc == 4 ? 'f' : enc == 5 ? 'd' : 'i';
    bytes raw = pattern (n * 8 + 1, 2);
    if (enc == 4) for (int i = 0; i < n; i++) { float f = i * 1.5f; memcpy (&raw[i * 4], &f, 4); }
    if (enc != 4 && enc != 5 && enc) for (int i = 0; i < n; i++) { int32_t v = i * i * 3 - 50; memcpy (&raw[i * 4], &v, 4); }
    Buf in (raw); m->datasamples = in.p; m->numsamples = n; m->samplecnt = n;
    Packed p;
    if (viatl)
    {
      MS3TraceList *l = mstl3_init (NULL);
      char *ex0 = m->extralength ? m->extra : NULL;
      if (!mstl3_addmsr (l, m, 0, 1, 0, NULL)) fail ("adding to a list");
      p.rc = mstl3_pack (l, pack_handler, &p, m->reclen, enc, &p.n, MSF_FLUSHDATA, 0, ex0);
      mstl3_free (&l, 0);
    }
    else p = pack_all (m, MSF_FLUSHDATA);
    m->datasamples = NULL; m->numsamples = 0; m->extra = NULL; m->extralength = 0;
    msr3_free (&m);
    if (p.rc < 1) fail ("packing %d samples, encoding %d returned %d", n, enc, p.rc);
    for (auto &r : p.recs)
    {
      Rec3 q; bytes e = q.parse (r);
      if (!e.empty ()) fail ("written record: %s", e.c_str ());
      // at every alignment, with nothing and with other bytes behind it
      for (int al = 0; al < 4; al++)
      {
        char *b = (char *)malloc (r.size () + al + 3 * (al & 1));
        memcpy (b + al, r.data (), r.size ());
        if (al & 1) memcpy (b + al + r.size (), "MS\x03", 3);
        MS3Record *g = NULL;
        int rv = msr3_parse (b + al, r.size () + 3 * (al & 1), &g, MSF_VALIDATECRC | MSF_UNPACKDATA, 0);
        c.step ();
        bool same = memcmp (b + al, r.data (), r.size ()) == 0;
        if (rv || !g) fail ("written record of %zu bytes at alignment %d: validation returned %d", r.size (), al, rv);
        if (!same) fail ("parsing changed the record bytes");
        if (g->crc != q.crc) fail ("CRC %08x reported as %08x", q.crc, g->crc);
        msr3_free (&g);
        free (b);
      }
      c.state (Hash ().s (r)); c.nontriv ();
    }
    mk.done ("writing and validating");
  }, "every encoding x 0..23, 50, 100, 200 and 400 samples in up to 30 records, packed directly and through a trace list, x 8 identifier lengths x 3 extra headers, every alignment of the parsed buffer"});

  cfg.scenarios.push_back ({"byte changes", [=] (Ctx &c) {
    int w = c.pick (5); bytes r = make (w).build ();
    int at = c.pick ((int)r.size ());
    for (int v = 0; v < 256; v++)
    {
      if ((uint8_t)r[at] == v) continue;
      bytes b = r; b[at] = (char)v;
      corrupt_check (c, b, "byte change");
    }
    c.state (Hash ().i (w).i (at)); if (at > 2) c.nontriv ();
  }, "every other value of every byte of five records"});

  int WD = deep ? 14 : 11;
  cfg.scenarios.push_back ({"bursts", [=] (Ctx &c) {
    int w = c.pick (5); bytes r = make (w).build ();
    int bits = (int)r.size () * 8;
    int at = c.pick (bits);
    if (w == 4 && at > 2000) return; // the tail of the long record repeats
    int maxw = std::min (WD, bits - at);
    // first bit set (other starts cover the rest)
    for (uint32_t p = 1; p < (1u << maxw); p += 2)
    {
      bytes b = r;
      for (int k = 0; k < maxw; k++) if (p >> k & 1) b[(at + k) / 8] ^= 0x80 >> ((at + k) % 8);
      corrupt_check (c, b, "burst");
    }
    c.state (Hash ().i (w).i (at)); if (at >= 24) c.nontriv ();
  }, fmt ("all bit patterns of up to %d consecutive bits at every bit position of five records", WD)});
  cfg.scenarios.push_back ({"wide bursts", [=] (Ctx &c) {
    int w = c.pick (4); bytes r = make (w).build ();
    int bits = (int)r.size () * 8;
    int at = c.pick (bits);
    int width = 10 + c.pick (23);
    if (at + width > bits) return;
    int last = at + width - 1;
    auto flip = [] (bytes &b, int k) { b[k / 8] ^= 0x80 >> (k % 8); };
    bytes b0 = r; flip (b0, at); flip (b0, last);
    corrupt_check (c, b0, "wide burst");
    for (int i = at + 1; i < last; i++)
    {
      bytes b1 = b0; flip (b1, i);
      corrupt_check (c, b1, "wide burst");
      if (deep) for (int j = i + 1; j < last; j++) { bytes b2 = b1; flip (b2, j); corrupt_check (c, b2, "wide burst"); }
    }
    bytes ba = r; for (int i = at; i <= last; i++) flip (ba, i);
    corrupt_check (c, ba, "wide burst");
    c.state (Hash ().i (w).i (at).i (width)); if (at >= 24) c.nontriv ();
  }, "every window of 10..32 bits at every bit position of four records: both ends changed plus every combination of one (thorough: two) further bits, and all bits"});
  cfg.scenarios.push_back ({"CRC field values", [=] (Ctx &c) {
    int w = c.pick (5); Rec3 q = make (w); uint32_t good = crc32c ([&] { bytes z = q.build (); set (z, 28, 0, 4, 0); return z; }());
    int k = c.pick (40);
    q.crcmode = 1;
    q.crc = k < 32 ? good ^ (1u << k) : k == 32 ? 0 : k == 33 ? ~0u : k == 34 ? ~good : k == 35 ? __builtin_bswap32 (good) : k == 36 ? good + 1 : k == 37 ? good - 1 : k == 38 ? good << 16 | good >> 16 : crc32c (q.data);
    if (q.crc == good) return;
    corrupt_check (c, q.build (), "CRC field");
    c.state (Hash ().i (w).i (k)); c.nontriv ();
  }, "CRC field with each bit changed, 0, all ones, complemented, byte swapped, neighbours"});
  // every reading function passes the request on
  cfg.scenarios.push_back ({"through readers", [=] (Ctx &c) {
    int w = 1 + c.pick (4), how = c.pick (8), where = c.pick (3); bool on = c.flip (), unpack = c.flip (); int bad = c.pick (3);
    bytes r = make (w).build (), g = make (1).build ();
    size_t at = bad == 0 ? 3 : bad == 1 ? r.size () - 1 : 32;
    bytes b = r; b[at] ^= 0x10;
    bytes all; for (int i = 0; i < 3; i++) all += i == where ? b : g;
    uint32_t fl = (on ? MSF_VALIDATECRC : 0) | (unpack ? MSF_UNPACKDATA : 0);
    MemCheck mk; MS3Selections *sel = NULL; if (how >= 5 && ms3_addselect (&sel, "*", NSTUNSET, NSTUNSET, 0)) fail ("cannot select everything");
    std::string path = fmt ("%s/p04.%d", getenv ("MC_SCRATCH"), getpid ());
    FILE *f = fopen (path.c_str (), "wb"); fwrite (all.data (), 1, all.size (), f); fclose (f);
    int got = 0, rv = 0;
    if (how == 0)
    {
      MS3FileParam *fp = NULL; MS3Record *m = NULL;
      while ((rv = ms3_readmsr_r (&fp, &m, path.c_str (), fl, 0)) == 0) got++;
      ms3_readmsr_r (&fp, &m, NULL, 0, 0);
    }
    else if (how == 1 || how == 5)
    {
      MS3FileParam *fp = NULL; MS3Record *m = NULL;
      while ((rv = ms3_readmsr_selection (&fp, &m, path.c_str (), fl, sel, 0)) == 0) got++;
      ms3_readmsr_selection (&fp, &m, NULL, 0, NULL, 0);
    }
    else
    {
      MS3TraceList *tl = NULL;
      if (how == 2) rv = ms3_readtracelist (&tl, path.c_str (), NULL, 0, fl, 0);
      else if (how == 3) { Buf in (all); rv = (int)mstl3_readbuffer (&tl, in.p, in.n, 0, fl, NULL, 0); if (!in.same ()) fail ("reading changed the buffer"); if (rv > 0) rv = 0; }
      else if (how == 7) { Buf in (all); rv = (int)mstl3_readbuffer_selection (&tl, in.p, in.n, 0, fl, NULL, sel, 0); if (!in.same ()) fail ("reading changed the buffer"); if (rv > 0) rv = 0; }
      else { rv = ms3_readtracelist_selection (&tl, path.c_str (), NULL, sel, 0, fl, 0); }
      if (tl) for (MS3TraceID *id = tl->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *s = id->first; s; s = s->next) got++;
      mstl3_free (&tl, 0);
    }
    unlink (path.c_str ()); ms3_freeselections (sel);
    c.step ();
    if (on)
    {
      if (rv != MS_INVALIDCRC) fail ("reader %d: corrupted record %d: returned %d", how, where, rv);
      if ((how < 2 || how == 5) && got != where) fail ("reader %d: %d records delivered before the corrupted one, not %d", how, got, where);
    }
    else if ((how < 2 || how == 5) && !unpack && got != 3) fail ("reader %d: without validation %d records delivered, result %d", how, got, rv);
    mk.done ("reading");
    c.state (Hash ().i (w).i (how).i (where).i (on).i (bad)); c.nontriv ();
  }, "one corrupted record at each place of three through five reading functions with and without selections, validation and decoding on and off"});
  return run (argc, argv, cfg);
}
