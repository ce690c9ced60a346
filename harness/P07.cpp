// P07: for every number of available bytes detection gives the true length or asks for more, whatever follows.
#include "ref.hpp"
using namespace mc; using namespace ref;

static int64_t detect (const bytes &b, uint8_t &fv)
{
  Buf in (b);
  fv = 0xee;
  int64_t r = ms3_detect (in.p, in.n, &fv);
  if (!in.same ()) fail ("detection changed the bytes");
  return r;
}
// the bytes a reader has when n of the stream s are available
static bytes cut (const bytes &s, size_t n) { return s.substr (0, n); }

// the stream starts with a record of length len, format fv; from known bytes on the length must be exact
static void prefix_check (Ctx &c, const bytes &s, int64_t len, int fv, size_t known, const char *what, size_t step = 1, size_t upto = ~(size_t)0)
{
  for (size_t n = 0; n <= s.size () && n <= upto; n += (n < 700 || n + 300 > (size_t)len ? 1 : step))
  {
    uint8_t v; int64_t r = detect (cut (s, n), v);
    c.step ();
    if (n < 40) { if (r >= 0 && r != len) fail ("%s: detection of %zu bytes returned %lld for a record of %lld", what, n, (long long)r, (long long)len); continue; }
    if (v != fv) fail ("%s: detection of %zu bytes reports format version %d, not %d", what, n, v, fv);
    if (r < 0) fail ("%s: detection of %zu of %lld bytes of a valid record returned %lld", what, n, (long long)len, (long long)r);
    if (r != 0 && r != len) fail ("%s: detection of %zu bytes returned length %lld for a record of %lld bytes", what, n, (long long)r, (long long)len);
    if (n >= known && r != len) fail ("%s: %zu bytes available, %zu are enough, length %lld still not determined", what, n, known, (long long)len);
  }
}
// hints of msr3_parse lead to the record
static void hint_check (Ctx &c, const bytes &s, int64_t len, size_t start, uint32_t flags, const char *what, bool exact)
{
  size_t n = start;
  for (int rounds = 0;; rounds++)
  {
    Buf in (cut (s, n));
    MS3Record *m = NULL;
    int rv = msr3_parse (in.p, in.n, &m, flags, 0);
    c.step ();
    if (rv == 0)
    {
      if (m->reclen != len) fail ("%s: parsed length %d of %lld", what, m->reclen, (long long)len);
      if ((int64_t)n < len) fail ("%s: parsed with %zu of %lld bytes", what, n, (long long)len);
      msr3_free (&m);
      return;
    }
    if (m) fail ("%s: record returned with result %d", what, rv);
    if (rv < 0) fail ("%s: parsing %zu of %lld bytes returned %d", what, n, (long long)len, rv);
    if ((int64_t)n >= len && (n >= s.size () || exact)) fail ("%s: %zu bytes are the whole record, %d more asked for", what, n, rv);
    if (exact && (int64_t)(n + rv) != len && rv != MAXRECLEN) fail ("%s: with %zu of %lld bytes, %d more asked for", what, n, (long long)len, rv);
    n = std::min (s.size (), n + rv);
    if (rounds > 400000) fail ("%s: hints do not lead to the record", what);
  }
}

static const bytes NOISE = "This is not a record. 000001 MS 3  This text goes on and on and on; MS and 3 are no header ........................";
static bytes follow (int k)
{
  switch (k)
  {
  case 0: return "";
  case 1: return bytes (150, '\0');
  case 2: return NOISE + NOISE;
  case 3: { Rec3 r; r.data = bytes (20, 1); r.numsamples = 5; return r.build (); }
  case 4: { Rec2 r; r.reclen = 128; r.blks.push_back (r.b1000 (3, 1, 7)); return r.build (); }
  default: return bytes (150, (char)0xff);
  }
}

int main (int argc, char **argv)
{
  setup ();
  Config cfg;
  cfg.property = "P07";
  cfg.rule = "transitions are detection or parsing calls on a prefix of a stream, each on an exactly sized buffer; distinct outcomes are streams; non-trivial: the stream has bytes after the record or the length depends on blockettes";
  cfg.assumptions = {"what looks like a version 2 header at a 64-byte boundary inside a record whose length is not stated yet cannot be told from the next record and is not part of the space",
                     "version 2 headers whose year and day are plausible in both byte orders (year 2056, days 1 and 256) are ambiguous by format and excluded",
                     "below the minimum record length of 40 bytes nothing is a record yet (documented)"};
  const char *t = getenv ("VERIF_TIER"); bool deep = t && !strcmp (t, "thorough");

  cfg.scenarios.push_back ({"version 3 prefixes", [=] (Ctx &c) {
    static const int SL[] = {0, 1, 19, 47, 63}, XL[] = {0, 2, 255, 256, 700}, DL[] = {0, 1, 64, 255, 256, 1000};
    Rec3 r; int sl = c.of (SL), xl = c.of (XL), dl = c.of (DL), fo = c.pick (6);
    r.sid = bytes (sl, 'S'); r.extra = xl ? "{" + bytes (xl - 2, ' ') + "}" : ""; r.data = bytes (dl, 5); r.encoding = 0; r.numsamples = dl;
    bytes b = r.build (), s = b + follow (fo);
    prefix_check (c, s, b.size (), 3, 40, "version 3", 7);
    for (size_t n = 40; n < b.size (); n += n < 60 ? 1 : 37) hint_check (c, s, b.size (), n, 0, "version 3", true);
    c.state (Hash ().s (s)); if (fo) c.nontriv ();
  }, "version 3 records over all combinations of field lengths, followed by nothing, zeros, text, a record of either version or ones: every prefix length, every hint"});
  cfg.scenarios.push_back ({"version 3 stated lengths", [=] (Ctx &c) {
    // stated length only depends on the header; 40 bytes are enough
    static const int64_t D[] = {0, 1, 255, 256, 65535, 65536, 0xffffff, 10485760 - 40, 10485760 - 39, 10485760, 0x7fffffff, 0x80000000, 0xffffffff - 65535 - 255 - 40, 0xffffffff};
    int sl = c.pick (256), xi = c.pick (6); int64_t dl = c.of (D);
    static const int X[] = {0, 1, 255, 256, 32768, 65535};
    Rec3 r; r.sid = ""; bytes b = r.build ();
    set (b, 33, sl, 1, 0); set (b, 34, X[xi], 2, 0); set (b, 36, dl, 4, 0);
    int64_t len = 40 + (int64_t)sl + X[xi] + dl;
    for (int extra : {0, 1, 40})
    {
      bytes s = b + bytes (extra, 7);
      uint8_t v; int64_t g = detect (s, v);
      c.step ();
      if (v != 3 || g != len) fail ("stated length %lld: detection returned %lld, version %d", (long long)len, (long long)g, v);
      Buf in (s); MS3Record *m = NULL;
      int rv = msr3_parse (in.p, in.n, &m, 0, 0);
      c.step ();
      if (len > MAXRECLEN ? rv != MS_OUTOFRANGE : len > (int64_t)s.size () ? rv != len - (int64_t)s.size () : (rv != 0 && sl < LM_SIDLEN)) fail ("stated length %lld with %zu bytes: parsing returned %d", (long long)len, s.size (), rv);
      if (m) msr3_free (&m);
    }
    c.state (Hash ().i (len)); if (dl) c.nontriv ();
  }, "all identifier lengths 0..255 x 6 extra lengths x 14 payload lengths up to the largest a header can state"});
  cfg.scenarios.push_back ({"version 2 with blockette 1000", [=] (Ctx &c) {
    Rec2 r; r.big = c.flip ();
    int exp = c.of (std::vector<int>{7, 8, 9, 12}); r.reclen = 1 << exp;
    int chain = c.pick (8), fo = c.pick (6); int gap = c.pick (2);
    if (chain > 3 && exp < 8) return;
    if (chain == 7 && exp < 9) return;
    bytes k = r.b1000 (10, 1, exp);
    size_t known = 0; // where the length field of blockette 1000 becomes complete
    auto other = [&] (int type, int len) { bytes b; put (b, type, 2, r.big); put (b, 0, 2, r.big); b += bytes (len - 4, 1); int at = type == 200 ? 18 : type == 500 ? 8 : 0; if (at) { set (b, at, 2020, 2, r.big); set (b, at + 2, 1, 2, r.big); set (b, at + 8, 0, 2, r.big); } return b; };
    switch (chain)
    {
    case 0: r.blks = {k}; break;
    case 1: r.blks = {r.b1001 (1, 2), k}; break;
    case 2: r.blks = {k, r.b1001 (1, 2)}; break;
    case 3: r.blks = {r.b100 (1.0f), r.b1001 (1, 2), k}; break;
    case 4: r.blks = {other (200, 52), k}; break;
    case 5: r.blks = {other (2000, 36), k, r.b1001 (0, 0)}; break;
    case 6: r.blks = {other (999, 12), k}; break; // type of no known blockette
    case 7: r.blks = {other (500, 200), k}; break;
    }
    known = 48; for (auto &b : r.blks) { if (get (b, 0, 2, r.big) == 1000) break; known += b.size (); }
    if (gap)
    { // space between header and first blockette
      size_t pad = 8; r.dataoffset = 128; if (exp == 7 && known + 8 + pad > 120) return;
      bytes save = r.build (); (void)save;
      Rec2 q = r; q.blkoffset = 48 + (int)pad; q.dataoffset = (int)std::min<size_t> (r.reclen, 256);
      bytes b = q.build ();
      bytes chainb = b.substr (48, known + 8 + 60 > b.size () ? 0 : 0);
      (void)chainb;
      // rebuild by hand: move the chain behind the gap
      size_t cl = 0; for (auto &x : r.blks) cl += x.size ();
      if (48 + pad + cl > b.size ()) return;
      bytes ch = b.substr (48, cl);
      size_t o = 0; for (size_t i = 0; i < r.blks.size (); i++) { set (ch, o + 2, i + 1 < r.blks.size () ? 48 + pad + o + r.blks[i].size () : 0, 2, r.big); o += r.blks[i].size (); }
      for (size_t i = 48; i < 48 + pad; i++) b[i] = (char)0xee;
      b.replace (48 + pad, cl, ch);
      bytes s = b + follow (fo);
      prefix_check (c, s, b.size (), 2, known + pad + 8, "version 2 with gap", 13);
      c.state (Hash ().s (s)); c.nontriv ();
      return;
    }
    bytes b = r.build (), s = b + follow (fo);
    prefix_check (c, s, b.size (), 2, known + 8, "version 2", 13);
    for (size_t n = 40; n < b.size (); n += n < 200 ? 1 : 97) hint_check (c, s, b.size (), n, 0, "version 2", n >= known + 8);
    c.state (Hash ().s (s)); c.nontriv ();
  }, "both header byte orders, lengths 128..4096, blockette 1000 first, last and behind blockettes 1001, 100, 200, 500, 2000 and an unknown type, with and without a gap before the chain, six continuations: every prefix length, every hint"});
  cfg.scenarios.push_back ({"version 2 length exponents", [=] (Ctx &c) {
    int exp = c.pick (256); Rec2 r; r.big = c.flip (); r.reclen = 128; r.blks = {r.b1000 (10, 1, exp)};
    bytes b = r.build ();
    uint8_t v; int64_t g = detect (b, v);
    c.step ();
    int64_t want = exp < 63 ? 1LL << exp : INT64_MAX;
    if (v != 2 || (exp < 63 ? g != want : g < (1LL << 62))) fail ("exponent %d: detection returned %lld", exp, (long long)g);
    Buf in (b); MS3Record *m = NULL; int rv = msr3_parse (in.p, in.n, &m, 0, 0);
    c.step ();
    if (want < MINRECLEN || want > MAXRECLEN ? rv != MS_OUTOFRANGE : want > 128 ? rv != want - 128 : false) fail ("exponent %d: parsing returned %d", exp, rv);
    if (m && m->reclen > 128) fail ("exponent %d: record of %d bytes", exp, m->reclen);
    if (m) msr3_free (&m);
    c.state (Hash ().i (exp)); if (exp != 7) c.nontriv ();
  }, "every value of the record length exponent, both byte orders"});
  cfg.scenarios.push_back ({"version 2 without stated length", [=] (Ctx &c) {
    Rec2 r; r.big = c.flip ();
    static const int L[] = {64, 128, 192, 256, 320, 512, 1024};
    int len = c.of (L), chain = c.pick (3), next = c.pick (4);
    r.reclen = len;
    if (chain == 1) { if (len < 128) return; r.blks = {r.b1001 (1, 2)}; }
    if (chain == 2) { if (len < 128) return; r.blks = {r.b100 (2.0f), r.b1001 (1, 2)}; }
    r.data = bytes (len > 128 ? len - 128 : 0, 'x'); r.numsamples = 0;
    bytes b = r.build (), nx;
    Rec2 q; q.big = r.big != (next == 1); q.reclen = 128; q.seq = next == 2 ? "      " : "000002"; q.quality = next == 3 ? 'Q' : 'R'; q.blks = {q.b1000 (3, 1, 7)};
    nx = q.build ();
    bytes s = b + nx;
    if (b.size () != (size_t)len) return;
    // any number of bytes: true length or unknown; exact when the next header is there
    prefix_check (c, s, len, 2, len + 64, "version 2 measured by the next header");
    hint_check (c, s, len, 48, 0, "version 2 measured by the next header", false);
    // end of input: the available bytes are the record if they can be one
    Buf in (b); MS3Record *m = NULL;
    int rv = msr3_parse (in.p, in.n, &m, MSF_ATENDOFFILE, 0);
    c.step ();
    bool pow2 = (len & (len - 1)) == 0;
    if (pow2 ? rv != 0 || m->reclen != len : rv <= 0) fail ("version 2 of %d bytes at end of input: parsing returned %d", len, rv);
    if (m) msr3_free (&m);
    Buf in2 (b); m = NULL; rv = msr3_parse (in2.p, in2.n, &m, 0, 0);
    if (rv <= 0 || m) fail ("version 2 of %d bytes without stated length: parsing returned %d", len, rv);
    c.state (Hash ().s (s)); c.nontriv ();
  }, "version 2 records of 64..1024 bytes without blockette 1000, without and with other blockettes, followed by four kinds of version 2 headers or the end of input: every prefix length"});
  // header recognition over the documented conditions
  cfg.scenarios.push_back ({"recognition", [=] (Ctx &c) {
    int v3 = c.pick (2), at = c.pick (48), hi = c.pick (16);
    for (int lo = 0; lo < 16; lo++)
    {
      int val = hi * 16 + lo;
      bytes b;
      if (v3) { Rec3 r; r.data = bytes (24, 1); r.numsamples = 6; b = r.build (); if (at > 39) return; }
      else { Rec2 r; r.reclen = 128; r.blks = {r.b1000 (3, 1, 7)}; b = r.build (); }
      b[at] = (char)val;
      auto h = [&] (int i) { return (uint8_t)b[i]; };
      bool is3 = h (0) == 'M' && h (1) == 'S' && h (2) == 3 && h (12) <= 23 && h (13) <= 59 && h (14) <= 60;
      bool is2 = strchr ("DRQM", b[6]) && h (6) && (h (7) == ' ' || h (7) == 0) && h (24) <= 23 && h (25) <= 59 && h (26) <= 60;
      for (int i = 0; i < 6; i++) is2 = is2 && (isdigit (h (i)) || h (i) == ' ' || h (i) == 0);
      uint8_t v; int64_t g = detect (b, v);
      c.step ();
      int want = is3 ? 3 : is2 ? 2 : 0;
      if (want == 0 ? g >= 0 : v != want) fail ("byte %d = %d: %s header, detection returned %lld, version %d", at, val, want ? "valid" : "no", (long long)g, v);
      Buf in (b); MS3Record *m = NULL; int rv = msr3_parse (in.p, in.n, &m, 0, 0);
      c.step ();
      if (!want && rv != MS_NOTSEED) fail ("byte %d = %d: not a record, parsing returned %d", at, val, rv);
      if (rv == 0 && m->formatversion != want) fail ("byte %d = %d: version %d parsed for %d", at, val, m->formatversion, want);
      if (m) msr3_free (&m);
      c.state (Hash ().i (v3).i (at).i (val));
    }
    c.nontriv ();
  }, "every value of every header byte of a record of each version"});
  // year/day decide the byte order: every pair of values in both orders
  cfg.scenarios.push_back ({"byte order", [=] (Ctx &c) {
    int y = c.of (std::vector<int>{1900, 1901, 1969, 1970, 1999, 2000, 2024, 2047, 2048, 2056, 2099, 2100}), d = 1 + c.pick (366); bool big = c.flip ();
    // both byte orders of year and day are plausible: nothing in the format tells them apart
    auto sw = [] (int v) { return (v & 255) << 8 | v >> 8; };
    if (sw (y) >= 1900 && sw (y) <= 2100 && sw (d) >= 1 && sw (d) <= 366) return;
    Rec2 r; r.big = big; r.year = y; r.yday = d; r.reclen = 256; r.blks = {r.b1000 (3, 1, 8)};
    bytes b = r.build ();
    uint8_t v; int64_t g = detect (b, v);
    c.step ();
    if (g != 256 || v != 2) fail ("year %d day %d %s endian: detection returned %lld", y, d, big ? "big" : "little", (long long)g);
    c.state (Hash ().i (y).i (d)); c.nontriv ();
  }, "12 years x all days x both byte orders of the header"});
  if (deep)
    cfg.scenarios.push_back ({"long records", [=] (Ctx &c) {
      int k = c.pick (4);
      bytes b;
      if (k == 0) { Rec3 r; r.data = bytes (100000, 3); r.encoding = 0; r.numsamples = 100000; b = r.build (); }
      if (k == 1) { Rec2 r; r.reclen = 65536; r.blks = {r.b1000 (0, 1, 16)}; b = r.build (); }
      if (k == 2) { Rec2 r; r.reclen = 131072; r.blks = {r.b1000 (0, 1, 17)}; b = r.build (); }
      if (k == 3) { Rec3 r; r.data = bytes (1000000, 3); r.encoding = 0; r.numsamples = 1000000; b = r.build (); }
      bytes s = b + follow (4);
      prefix_check (c, s, b.size (), b[0] == 'M' ? 3 : 2, 56, "long record", 997);
      for (size_t n = 40; n < b.size (); n += 4999) hint_check (c, s, b.size (), n, 0, "long record", n >= 56);
      c.state (Hash ().i (k)); c.nontriv ();
    }, "records up to 1 MB"});
  return run (argc, argv, cfg);
}
