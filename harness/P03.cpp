// P03: every sample word of every non-Steim encoding decodes to its published value, in both byte orders.
#include "ref.hpp"
using namespace mc; using namespace ref;

struct Enc { int code, bytes; char type; int size; const char *name; };
static const Enc E[] = {{0, 1, 't', 1, "text"}, {1, 2, 'i', 4, "int16"}, {3, 4, 'i', 4, "int32"}, {4, 4, 'f', 4, "float32"}, {5, 8, 'd', 8, "float64"},
                        {12, 3, 'f', 4, "GEOSCOPE 24"}, {13, 2, 'f', 4, "GEOSCOPE 16/3"}, {14, 2, 'f', 4, "GEOSCOPE 16/4"}, {16, 2, 'i', 4, "CDSN"}, {30, 2, 'i', 4, "SRO"}, {32, 2, 'i', 4, "DWWSSN"}};

// published value of a sample word, as the bits stored in the output; false: the word is not defined
static bool value (int code, uint64_t w, uint64_t &bits)
{
  auto f = [&] (double d) { bits = fbits ((float)d); };
  auto i = [&] (int64_t v) { bits = (uint32_t)(int32_t)v; };
  switch (code)
  {
  case 0: bits = w; return true;
  case 1: case 32: i (w & 0x8000 ? (int64_t)w - 65536 : (int64_t)w); return true;
  case 3: case 4: case 5: bits = w; return true;
  case 12: f (w & 0x800000 ? (double)(int64_t)w - 16777216.0 : (double)w); return true;
  case 13: f (((double)(w & 4095) - 2048.0) / (double)(1 << (w >> 12 & 7))); return true;
  case 14: f (((double)(w & 4095) - 2048.0) / (double)(1 << (w >> 12 & 15))); return true;
  case 16: { static const int m[] = {1, 4, 16, 128}; i (((int64_t)(w & 16383) - 8191) * m[w >> 14 & 3]); return true; }
  case 30: { int g = w >> 12 & 15; int64_t m = w & 4095; if (m >= 2048) m -= 4096; if (g > 10) return false; i (m * (1 << (10 - g))); return true; }
  }
  return false;
}
static void decode (Ctx &c, const Enc &e, const std::vector<uint64_t> &ws, bool big)
{
  bytes d; for (auto w : ws) put (d, w, e.bytes, big);
  Buf in (d);
  size_t room = ws.size () * e.size;
  char *out = (char *)malloc (room); char st = 0;
  memset (out, 0x5a, room);
  int64_t rv = ms_decode_data (in.p, in.n, e.code, ws.size (), out, room, &st, big, "", 0);
  c.step (ws.size ());
  bytes got (out, room); free (out);
  if (!in.same ()) fail ("%s: payload changed by decoding", e.name);
  if (rv != (int64_t)ws.size () || st != e.type) fail ("%s: %zu samples, returned %lld, type %c", e.name, ws.size (), (long long)rv, st ? st : '-');
  for (size_t i = 0; i < ws.size (); i++)
  {
    uint64_t v = 0, x = 0;
    value (e.code, ws[i], v);
    memcpy (&x, &got[i * e.size], e.size);
    if (x != v) fail ("%s %s: word %llx decodes to %llx, published value %llx", e.name, big ? "big" : "little", (unsigned long long)ws[i], (unsigned long long)x, (unsigned long long)v);
  }
  // with more payload and more space than the samples need: no more samples, nothing written behind them
  bytes d2 = d; for (int k = 0; k < 3; k++) put (d2, ws[0], e.bytes, big);
  Buf in2 (d2), out2 (bytes (room + 2 * e.size + 3, 'z')); st = 0;
  rv = ms_decode_data (in2.p, in2.n, e.code, ws.size (), out2.p, out2.n, &st, big, "", 0);
  if (rv != (int64_t)ws.size () || memcmp (out2.p, got.data (), room) || bytes (out2.p + room, out2.n - room) != bytes (2 * e.size + 3, 'z')) fail ("%s: %zu samples with space for more: returned %lld", e.name, ws.size (), (long long)rv);
  // and with less space: refused, or only what fits
  if (room <= 4096) for (size_t less : {room - 1, room - e.size, (size_t)0})
  {
    Buf out3 (bytes (less, 'z')); st = 0;
    rv = ms_decode_data (in.p, in.n, e.code, ws.size (), out3.p, out3.n, &st, big, "", 0);
    if (rv > (int64_t)(less / e.size)) fail ("%s: %lld samples decoded into %zu bytes", e.name, (long long)rv, less);
  }
}

int main (int argc, char **argv)
{
  setup ();
  Config cfg;
  cfg.property = "P03";
  cfg.rule = "transitions are decoded sample words; an execution decodes one block of words or one record; distinct outcomes are blocks and records; non-trivial: words with sign, gain or byte-order relevant bits";
  cfg.assumptions = {"published definitions as in the SEED 2.4 manual, appendix B and D, and the libmseed encoding list: GEOSCOPE (mantissa-2048)/2^gain, CDSN (mantissa-8191)*{1,4,16,128}, SRO mantissa*2^(10-gain) with gain 0..10, DWWSSN 16-bit two's complement",
                     "SRO words with a gain range above 10 are not defined; they are refused"};
  const char *t = getenv ("VERIF_TIER"); bool deep = t && !strcmp (t, "thorough");

  cfg.scenarios.push_back ({"all 16-bit words", [=] (Ctx &c) {
    static const int idx[] = {1, 6, 7, 8, 9, 10};
    const Enc &e = E[c.of (idx)]; bool big = c.flip (); int hi = c.pick (256);
    std::vector<uint64_t> ws;
    for (int i = 0; i < 256; i++) { uint64_t v; if (value (e.code, hi << 8 | i, v)) ws.push_back (hi << 8 | i); }
    if (ws.empty ()) { c.nontriv (); return; }
    decode (c, e, ws, big);
    c.state (Hash ().i (e.code).i (hi).i (big)); c.nontriv ();
  }, "every 16-bit word of int16, GEOSCOPE 16-bit 3 and 4, CDSN, SRO and DWWSSN, both byte orders"});
  cfg.scenarios.push_back ({"SRO undefined words", [=] (Ctx &c) {
    int g = 11 + c.pick (5); bool big = c.flip (); int pos = c.pick (3);
    for (int m = 0; m < 4096; m += 7)
    {
      bytes d; for (int i = 0; i < 3; i++) put (d, i == pos ? g << 12 | m : 0x5001, 2, big);
      Buf in (d); bytes z (12, 'z'); Buf out (z); char st = 0;
      int64_t rv = ms_decode_data (in.p, in.n, 30, 3, out.p, 12, &st, big, "", 0);
      c.step ();
      if (rv >= 0) fail ("SRO word %04x accepted (%lld)", g << 12 | m, (long long)rv);
    }
    c.state (Hash ().i (g).i (pos)); c.nontriv ();
  }, "every undefined SRO gain range in a block of three"});
  cfg.scenarios.push_back ({"all 24-bit words", [=] (Ctx &c) {
    bool big = c.flip (); int hi = c.pick (4096);
    std::vector<uint64_t> ws; for (int i = 0; i < 4096; i++) ws.push_back ((uint64_t)hi << 12 | i);
    decode (c, E[5], ws, big);
    c.state (Hash ().i (hi).i (big)); if (hi) c.nontriv ();
  }, "every 24-bit word of GEOSCOPE 24, both byte orders"});
  cfg.scenarios.push_back ({"text bytes", [=] (Ctx &c) {
    int a = c.pick (256), n = 1 + c.pick (9); bool big = c.flip ();
    std::vector<uint64_t> ws; for (int i = 0; i < n; i++) ws.push_back ((a + i * 37) & 255);
    decode (c, E[0], ws, big);
    c.state (Hash ().i (a).i (n)); if (a > 127 || a == 0) c.nontriv ();
  }, "every byte value at every position of texts of 1..9 bytes"});
  if (deep)
    cfg.scenarios.push_back ({"all 32-bit words", [=] (Ctx &c) {
      const Enc &e = E[2 + c.pick (2)]; bool big = c.flip (); uint64_t hi = (uint64_t)c.pick (65536) << 16;
      std::vector<uint64_t> ws; for (int i = 0; i < 65536; i++) ws.push_back (hi | i);
      decode (c, e, ws, big);
      c.state (Hash ().u (hi).i (e.code).i (big)); c.nontriv ();
    }, "every 32-bit word of int32 and float32, both byte orders"});
  else
    cfg.scenarios.push_back ({"32-bit words", [=] (Ctx &c) {
      const Enc &e = E[2 + c.pick (2)]; bool big = c.flip ();
      static const int B[] = {0, 1, 2, 0x0f, 0x10, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xa5, 0xc0, 0xfe, 0xff, 0x5a};
      int b3 = c.of (B), b2 = c.of (B);
      std::vector<uint64_t> ws; for (int b1 : B) for (int b0 : B) ws.push_back ((uint64_t)b3 << 24 | b2 << 16 | b1 << 8 | b0);
      decode (c, e, ws, big);
      c.state (Hash ().i (b3).i (b2).i (e.code).i (big)); c.nontriv ();
    }, "all 32-bit words over a 16-value byte alphabet for int32 and float32 (thorough: every 32-bit word), both byte orders"});
  cfg.scenarios.push_back ({"64-bit words", [=] (Ctx &c) {
    bool big = c.flip ();
    static const int B[] = {0, 1, 0x7f, 0x80, 0xf0, 0xff};
    uint64_t w = 0; for (int i = 0; i < 4; i++) w = w << 8 | c.of (B);
    std::vector<uint64_t> ws;
    for (int a : B) for (int b : B) for (int d : B) for (int e : B) ws.push_back (w << 32 | (uint64_t)a << 24 | b << 16 | d << 8 | e);
    decode (c, E[4], ws, big);
    c.state (Hash ().u (w).i (big)); c.nontriv ();
  }, "all 64-bit words over a 6-value byte alphabet, both byte orders"});
  // the same through records: type, count, size, alignment of the payload, byte order flags of each version
  cfg.scenarios.push_back ({"records", [=] (Ctx &c) {
    const Enc &e = c.of (E); int form = c.pick (5), n = 1 + c.pick (9), pat = c.pick (6);
    std::vector<uint64_t> ws;
    static const uint64_t P[] = {0x0123456789abcdefULL, 0xfedcba9876543210ULL, 0x8000000000000001ULL, 0x7fffffffffffffffULL, 0xa55a00ff10ef2002ULL, 0x3ff0123456789abcULL};
    uint64_t mask = e.bytes == 8 ? ~0ULL : (1ULL << 8 * e.bytes) - 1;
    for (int i = 0; i < n; i++) { uint64_t w = (P[pat] ^ (uint64_t)i * 0x1111111111111111ULL) & mask; if (e.code == 30) w &= 0x7fff; ws.push_back (w); }
    bool big = form < 3 ? form != 1 : false;
    bytes rec, d; for (auto w : ws) put (d, w, e.bytes, big);
    if (form < 3)
    {
      Rec2 r; r.big = form != 2; r.numsamples = n; r.reclen = 256; r.data = d; r.blks.push_back (r.b1000 (e.code, big ? 1 : 0, 8)); rec = r.build ();
    }
    else
    { // identifier lengths give the payload odd offsets
      Rec3 r; r.encoding = e.code; r.numsamples = n; r.data = d; r.sid = form == 3 ? "FDSN:XX_TEST__L_H_Z" : "FDSN:XX_TES__L_H_Z"; rec = r.build ();
    }
    Buf in (rec);
    MemCheck mk;
    MS3Record *m = NULL;
    int rv = msr3_parse (in.p, in.n, &m, MSF_UNPACKDATA, 0);
    c.step ();
    if (rv) fail ("%s record: parsing returned %d", e.name, rv);
    if (m->numsamples != n || m->sampletype != e.type || m->samplecnt != n) fail ("%s record: %lld samples of type %c for %d", e.name, (long long)m->numsamples, m->sampletype, n);
    for (int i = 0; i < n; i++)
    {
      uint64_t v = 0, x = 0; value (e.code, ws[i], v); memcpy (&x, (char *)m->datasamples + i * e.size, e.size);
      if (x != v) fail ("%s record form %d: sample %d is %llx, published value %llx", e.name, form, i, (unsigned long long)x, (unsigned long long)v);
    }
    uint8_t sz = 0; char ty = 0;
    if (ms_encoding_sizetype (e.code, &sz, &ty) || sz != e.size || ty != e.type || ms_samplesize (ty) != e.size) fail ("%s: documented size %d type %c, reported %d %c", e.name, e.size, e.type, sz, ty);
    c.state (Hash ().s (msr_str (m)).i (form)); c.nontriv ();
    msr3_free (&m); mk.done ("record");
  }, "each encoding in records: version 2 with big/big, big/little and little/big header and payload order, version 3 with even and odd payload offsets, 1..9 samples, six patterns"});
  cfg.scenarios.push_back ({"unsupported encodings", [=] (Ctx &c) {
    int code = c.pick (256), v3 = c.pick (2), n = c.pick (3);
    bool known = code == 10 || code == 11; for (auto &e : E) known |= e.code == code;
    uint8_t sz = 0; char ty = 0;
    int s = ms_encoding_sizetype (code, &sz, &ty);
    c.step ();
    if (known != (s == 0)) fail ("encoding %d: size/type lookup returned %d", code, s);
    if (known) return;
    if (v3 && code > 127) { }
    bytes d (64, 1), rec;
    if (v3) { Rec3 r; r.encoding = code; r.numsamples = n; r.data = d; rec = r.build (); }
    else { Rec2 r; r.numsamples = n; r.reclen = 256; r.data = d; r.blks.push_back (r.b1000 (code, 1, 8)); rec = r.build (); }
    Buf in (rec); MemCheck mk; MS3Record *m = NULL;
    int rv = msr3_parse (in.p, in.n, &m, 0, 0);
    if (rv) { if (m) msr3_free (&m); return; }
    int64_t u = msr3_unpack_data (m, 0);
    c.step ();
    if (n && (u >= 0 || m->numsamples)) fail ("encoding %d: unpacking returned %lld, %lld samples", code, (long long)u, (long long)m->numsamples);
    if (!n && u != 0) fail ("encoding %d without samples: unpacking returned %lld", code, (long long)u);
    if (m->datasamples && m->numsamples) fail ("encoding %d: samples present", code);
    msr3_free (&m);
    char st = 0; bytes z (n * 8 + 8, 'z'); Buf out (z);
    int64_t r2 = ms_decode_data (d.data (), d.size (), code, n + 1, out.p, out.n, &st, 0, "", 0);
    if (r2 >= 0 || !out.same ()) fail ("encoding %d: decoding returned %lld%s", code, (long long)r2, out.same () ? "" : " and wrote samples");
    mk.done ("unsupported encoding");
    c.state (Hash ().i (code)); c.nontriv ();
  }, "every encoding code 0..255 in both versions with 0..2 samples"});
  return run (argc, argv, cfg);
}
