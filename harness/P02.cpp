// P02: Steim-1 and Steim-2 are lossless on every difference sequence of the bounded space, the written frames follow the
// published definition, and every well-formed frame sequence decodes to what that definition assigns.
#include "ref.hpp"
using namespace mc; using namespace ref;
typedef std::vector<int32_t> Vi;

static MS3Record *newmsr (int fv, int encoding, int reclen)
{
  MS3Record *m = msr3_init (NULL);
  strcpy (m->sid, "FDSN:XX_T__L_H_Z");
  m->formatversion = fv; m->reclen = reclen; m->encoding = encoding; m->samprate = 1; m->pubversion = 1; m->starttime = 0;
  return m;
}
static int bitsof (int64_t d)
{
  for (int w : {4, 5, 6, 8, 10, 15, 16, 30, 32}) if (d >= -(1LL << (w - 1)) && d < (1LL << (w - 1))) return w;
  return 33;
}

// write v with the library, check every payload by the published definition and decode it with the library
static void encode_check (Ctx &c, const Vi &v, int steim, int fv, int reclen)
{
  bool must = true, may = true; // must/may succeed
  for (size_t i = 1; i < v.size (); i++)
  {
    int64_t d = (int64_t)v[i] - v[i - 1];
    if (steim == 2 && bitsof (d) > 30) { must = false; if (bitsof ((int32_t)d) > 30) may = false; }
  }
  MemCheck mk;
  MS3Record *m = newmsr (fv, steim == 1 ? DE_STEIM1 : DE_STEIM2, reclen);
  bytes raw ((const char *)v.data (), v.size () * 4);
  Buf in (raw);
  m->datasamples = in.p; m->numsamples = v.size (); m->samplecnt = v.size (); m->sampletype = 'i'; m->datasize = in.n;
  Packed p = pack_all (m, MSF_FLUSHDATA | (fv == 2 ? MSF_PACKVER2 : 0));
  c.step (p.recs.size () + 1);
  if (!in.same ()) fail ("packing changed the samples");
  m->datasamples = NULL; m->numsamples = 0;
  msr3_free (&m);
  auto show = [&] { bytes s; for (auto x : v) s += fmt (" %d", x); return s; };
  size_t at = 0;
  if (p.rc < 0 && must) fail ("Steim-%d of%s refused (%d)", steim, show ().c_str (), p.rc);
  if (p.rc >= 0 && !may) fail ("Steim-%d of%s not refused", steim, show ().c_str ());
  for (auto &r : p.recs)
  {
    size_t n, off; bytes d;
    if (fv == 3)
    {
      Rec3 q; bytes e = q.parse (r);
      if (!e.empty ()) fail ("record: %s", e.c_str ());
      n = q.numsamples; d = q.data;
    }
    else { n = get (r, 30, 2, true); off = get (r, 44, 2, true); d = r.substr (off); }
    if (d.size () % 64) fail ("payload of %zu bytes", d.size ());
    if (at + n > v.size ()) fail ("%zu samples written for %zu", at + n, v.size ());
    SteimOut o = steim_decode (d, steim, n, true);
    if (!o.err.empty ()) fail ("Steim-%d frames of%s: %s", steim, show ().c_str (), o.err.c_str ());
    for (size_t i = 0; i < n; i++)
      if (o.v[i] != v[at + i]) fail ("Steim-%d of%s: sample %zu is %d by the published definition", steim, show ().c_str (), at + i, o.v[i]);
    Buf pay (d);
    char *out = (char *)malloc (n * 4 + 1); char st = 0;
    int64_t rv = ms_decode_data (pay.p, pay.n, steim == 1 ? DE_STEIM1 : DE_STEIM2, n, out, n * 4, &st, 1, "", 0);
    bool ok = rv == (int64_t)n && st == 'i' && memcmp (out, &v[at], n * 4) == 0;
    free (out);
    if (!ok) fail ("Steim-%d of%s: decoding returned %lld, type %c", steim, show ().c_str (), (long long)rv, st ? st : '-');
    c.state (Hash ().i (steim).s (d));
    at += n;
  }
  if (p.rc >= 0 && (at != v.size () || p.n != (int64_t)at || p.rc != (int)p.recs.size ()))
    fail ("Steim-%d of%s: %zu samples in %zu records, reported %lld in %d", steim, show ().c_str (), at, p.recs.size (), (long long)p.n, p.rc);
  if (p.rc >= 0) c.nontriv ();
  mk.done ("packing");
}

static void decode_check (Ctx &c, int steim, const std::vector<SteimWord> &ws, int32_t x0, bool big, int extraframes, size_t count, size_t total, const Vi &expect)
{
  bytes d = steim_frames (steim, ws, x0, expect.empty () ? x0 : expect.back (), big, extraframes);
  Buf pay (d);
  size_t room = count * 4;
  char *out = (char *)malloc (room ? room : 1); char st = 0;
  memset (out, 0x5a, room);
  int64_t rv = ms_decode_data (pay.p, pay.n, steim == 1 ? DE_STEIM1 : DE_STEIM2, count, out, room, &st, big ? 1 : 0, "", 0);
  c.step ();
  bytes got (out, room);
  free (out);
  if (!pay.same ()) fail ("decoding changed the payload");
  if (rv == (int64_t)count)
  { // space for more samples: no more are written
    Buf more (bytes (room + 11, 'z')); char s2 = 0;
    int64_t r2 = ms_decode_data (pay.p, pay.n, steim == 1 ? DE_STEIM1 : DE_STEIM2, count, more.p, more.n, &s2, big ? 1 : 0, "", 0);
    if (r2 != rv || memcmp (more.p, got.data (), room) || bytes (more.p + room, 11) != bytes (11, 'z')) fail ("Steim-%d: %zu samples with space for more: returned %lld", steim, count, (long long)r2);
  }
  if (count <= total)
  {
    if (rv != (int64_t)count || st != 'i') fail ("Steim-%d %s: decoding %zu of %zu samples returned %lld, type %c: %s", steim, big ? "big" : "little", count, total, (long long)rv, st ? st : '-', hex (d, 128).c_str ());
    for (size_t i = 0; i < count; i++)
    {
      int32_t x; memcpy (&x, &got[i * 4], 4);
      if (x != expect[i]) fail ("Steim-%d %s: sample %zu of %zu is %d, definition gives %d: %s", steim, big ? "big" : "little", i, count, x, expect[i], hex (d, 128).c_str ());
    }
  }
  else if (rv >= 0) fail ("Steim-%d: %zu samples present, decoding %zu returned %lld", steim, total, count, (long long)rv);
}
static Vi expand (const std::vector<SteimWord> &ws, int32_t x0)
{
  Vi diffs, v;
  for (auto &w : ws) diffs.insert (diffs.end (), w.d.begin (), w.d.end ());
  uint32_t cur = (uint32_t)x0;
  for (size_t i = 0; i < diffs.size (); i++) { if (i) cur += (uint32_t)diffs[i]; v.push_back ((int32_t)cur); }
  if (v.empty ()) v.push_back (x0);
  return v;
}
static SteimWord word (int steim, int kind, int pattern)
{
  SteimWord w; w.kind = kind;
  int n = steim_per (steim, kind), b = steim_bits (steim, kind);
  int64_t hi = kind ? (1LL << (b - 1)) - 1 : 0, lo = kind ? -(1LL << (b - 1)) : 0;
  for (int i = 0; i < n; i++)
  {
    int64_t v = 0;
    switch (pattern)
    {
    case 0: v = i + 1; break;
    case 1: v = lo; break;
    case 2: v = hi; break;
    case 3: v = i & 1 ? hi : lo; break;
    case 4: v = -1; break;
    case 5: v = i == n - 1 ? lo : 0; break;
    case 6: v = i == 0 ? lo : 0; break;
    case 7: v = 0; break;
    }
    w.d.push_back ((int32_t)v);
  }
  return w;
}

int main (int argc, char **argv)
{
  setup ();
  Config cfg;
  cfg.property = "P02";
  cfg.rule = "an execution is one sample sequence written by msr3_pack and read back, or one frame sequence decoded at every stated sample count; distinct outcomes are payloads and decoded sequences; non-trivial: the sequence was accepted (writing) or holds at least two word kinds (reading)";
  cfg.assumptions = {"frames are decoded by an independent implementation of the published Steim-1/Steim-2 frame definition",
                     "little endian Steim payloads are not part of the published definition; the oracle stores every element (byte, 16-bit half, 32-bit word) in that order at its place",
                     "a difference that only fits after wrapping modulo 2^32 may be refused by Steim-2 or written exactly"};
  const char *t = getenv ("VERIF_TIER"); bool deep = t && !strcmp (t, "thorough");

  static const int W[] = {4, 5, 6, 8, 10, 15, 16, 30, 32};
  // one representative per width class: the largest magnitude, alternating sign by position
  auto rep = [] (int w, int i) -> int64_t { return i & 1 ? (1LL << (w - 1)) - 1 : -(1LL << (w - 1)); };

  { // every sequence of width classes
    int L = deep ? 8 : 6;
    cfg.scenarios.push_back ({"encode class sequences", [=] (Ctx &c) {
      int steim = 1 + c.pick (2);
      Vi v; v.push_back (1000);
      Vi cls;
      int n = 1 + c.pick (L);
      for (int i = 0; i < n; i++)
      {
        int k = steim == 1 ? c.of (std::vector<int>{8, 16, 32}) : c.of (std::vector<int>{4, 5, 6, 8, 10, 15, 30});
        int64_t d = rep (k, i);
        v.push_back ((int32_t)(uint32_t)((uint32_t)v.back () + (uint32_t)d));
      }
      encode_check (c, v, steim, c.flip () ? 2 : 3, 256);
    }, fmt ("all sequences of 1..%d differences over the 3 (Steim-1) or 7 (Steim-2) word widths at their largest magnitude, both format versions", L)});
  }
  { // windows across word and frame and record boundaries
    int L = deep ? 7 : 5;
    cfg.scenarios.push_back ({"encode at frame ends", [=] (Ctx &c) {
      int steim = 1 + c.pick (2);
      int frames = 1 + c.pick (2);
      int pre = 7 + c.pick (9);
      int fv = c.flip () ? 2 : 3;
      int tail = c.pick (2);
      Vi v; v.push_back (-5);
      auto add = [&] (int64_t d) { v.push_back ((int32_t)((uint32_t)v.back () + (uint32_t)d)); };
      int wide = steim == 1 ? 32 : 30;
      if (frames == 2) for (int i = 0; i < 13; i++) add (rep (wide, i));
      for (int i = 0; i < pre; i++) add (rep (wide, i));
      for (int i = 0; i < L; i++)
      {
        int k = steim == 1 ? c.of (std::vector<int>{8, 16, 32}) : c.of (std::vector<int>{4, 6, 10, 30});
        add (rep (k, i));
      }
      if (tail) for (int i = 0; i < 9; i++) add (i & 1 ? 7 : -8);
      // 56 bytes of v3 header and identifier; v2 data begins at 64
      encode_check (c, v, steim, fv, fv == 3 ? 56 + 64 * frames : 64 + 64 * (frames == 1 ? 1 : 3));
    }, fmt ("a prefix of 7..15 one-difference words in the first or second frame, then all sequences of %d differences over the width classes, with and without a tail of small differences, records of one, two and three frames: words, frames and records end at every position", L)});
  }
  { // boundary values
    cfg.scenarios.push_back ({"encode boundary differences", [=] (Ctx &c) {
      int steim = 1 + c.pick (2);
      std::vector<int64_t> vals = {0};
      for (int w : W) { vals.push_back ((1LL << (w - 1)) - 1); vals.push_back (-(1LL << (w - 1))); if (w < 32) { vals.push_back (1LL << (w - 1)); vals.push_back (-(1LL << (w - 1)) - 1); } }
      int n = 1 + c.pick (3), fill = c.pick (4), rot = c.pick (3);
      static const int32_t starts[] = {0, INT32_MAX, INT32_MIN, -536870912};
      Vi v; v.push_back (c.of (starts));
      auto add = [&] (int64_t d) { v.push_back ((int32_t)((uint32_t)v.back () + (uint32_t)d)); };
      static const int fills[] = {0, 1, 4, 6};
      if (rot == 1) for (int i = 0; i < fills[fill]; i++) add (i & 1 ? 3 : -3);
      for (int i = 0; i < n; i++) add (c.of (vals));
      if (rot == 0) for (int i = 0; i < fills[fill]; i++) add (i & 1 ? 3 : -3);
      if (rot == 2) for (int i = 0; i < 2 * fills[fill]; i++) add (i & 1 ? 100 : -100);
      encode_check (c, v, steim, 3, 128 + 56);
    }, "all sequences of 1..3 differences over every width boundary and its neighbours, from 4 start values (wrapping included), followed or preceded by fillers that complete multi-difference words"});
  }
  { // extreme sample values (differences that wrap or do not fit)
    cfg.scenarios.push_back ({"encode extreme samples", [=] (Ctx &c) {
      int steim = 1 + c.pick (2);
      static const int32_t X[] = {0, 1, -1, INT32_MAX, INT32_MIN, 536870911, 536870912, -536870912, -536870913, 1 << 30};
      int n = 1 + c.pick (deep ? 5 : 4);
      Vi v;
      for (int i = 0; i < n; i++) v.push_back (c.of (X));
      encode_check (c, v, steim, 3, 120);
    }, "all sample sequences up to length 4 (thorough: 5) over extreme values and the 30-bit boundaries"});
  }
  { // decoding: short mixtures of all word kinds
    int L = deep ? 5 : 4;
    cfg.scenarios.push_back ({"decode word mixtures", [=] (Ctx &c) {
      int steim = 1 + c.pick (2), K = steim_kinds (steim);
      bool big = c.flip ();
      int n = 1 + c.pick (L);
      std::vector<SteimWord> ws;
      int total = 0;
      std::set<int> kinds;
      for (int i = 0; i < n; i++)
      {
        int k = c.pick (K);
        if (i == 0 && k == 0) k = 1; // the first difference word holds the difference that belongs to X0
        kinds.insert (k);
        ws.push_back (word (steim, k, k == 0 ? 7 : (i + 1) % 7));
        total += steim_per (steim, k);
      }
      static const int32_t X0[] = {0, INT32_MAX, INT32_MIN};
      int32_t x0 = c.of (X0);
      Vi e = expand (ws, x0);
      for (size_t k = 1; k <= e.size () + 1; k++) decode_check (c, steim, ws, x0, big, k & 1, k, e.size (), e);
      c.state (Hash ().i (steim).b (e.data (), e.size () * 4));
      if (kinds.size () > 1) c.nontriv ();
    }, fmt ("all sequences of 1..%d words over every word kind (4 of Steim-1, 8 of Steim-2, including words without differences), both byte orders, every sample count from 1 to one more than present, output buffers of exactly the decoded size", L)});
  }
  { // decoding: bit patterns of each word kind, at every word position of two frames
    cfg.scenarios.push_back ({"decode word positions", [=] (Ctx &c) {
      int steim = 1 + c.pick (2), K = steim_kinds (steim);
      bool big = c.flip ();
      int base = 1 + c.pick (K - 1), kind = c.pick (K), pat = c.pick (8), bpat = c.pick (deep ? 8 : 2);
      int pos = c.pick (28);
      std::vector<SteimWord> ws;
      for (int i = 0; i < 28; i++) ws.push_back (i == pos && !(i == 0 && kind == 0) ? word (steim, kind, pat) : word (steim, base, bpat));
      Vi e = expand (ws, 12345);
      size_t tot = e.size ();
      for (size_t k : {(size_t)1, tot / 2, tot - 1, tot, tot + 1}) if (k) decode_check (c, steim, ws, 12345, big, 0, k, tot, e);
      c.state (Hash ().i (steim).b (e.data (), e.size () * 4));
      if (base != kind) c.nontriv ();
    }, "two full frames of one word kind with one word of any other kind and any of 8 payload patterns (extremes, alternating, -1, single) at each of the 28 word positions, both byte orders, five sample counts"});
  }
  { // output space
    cfg.scenarios.push_back ({"decode output space", [=] (Ctx &c) {
      int steim = 1 + c.pick (2), kind = 1 + c.pick (steim_kinds (steim) - 1);
      int nw = 1 + c.pick (20);
      std::vector<SteimWord> ws;
      for (int i = 0; i < nw; i++) ws.push_back (word (steim, kind, 0));
      Vi e = expand (ws, 7);
      bytes d = steim_frames (steim, ws, 7, e.back (), true);
      for (size_t n = 1; n <= e.size (); n++)
        for (size_t room : {n * 4 - 1, n * 4 - 4, (size_t)0})
        {
          Buf pay (d); char st = 0;
          bytes z (room, 'z'); Buf out (z);
          int64_t rv = ms_decode_data (pay.p, pay.n, steim == 1 ? 10 : 11, n, out.p, room, &st, 1, "", 0);
          c.step ();
          if (rv >= 0) fail ("Steim-%d: %zu samples decoded into %zu bytes", steim, n, room);
        }
      // frames cut short: never more than the frames hold
      for (size_t cut = 0; cut < d.size (); cut += 32)
      {
        Buf pay (d.substr (0, cut)); char st = 0;
        bytes z (e.size () * 4, 'z'); Buf out (z);
        int64_t rv = ms_decode_data (pay.p, cut, steim == 1 ? 10 : 11, e.size (), out.p, z.size (), &st, 1, "", 0);
        c.step ();
        size_t words = cut / 64 == 0 ? 0 : 13 + 15 * (cut / 64 - 1), have = std::min ((size_t)nw, words) * steim_per (steim, kind);
        if (rv >= 0 && have < e.size ()) fail ("Steim-%d: %lld samples from %zu bytes that hold %zu", steim, (long long)rv, cut, have);
      }
      c.state (Hash ().i (steim).i (kind).i (nw));
      c.nontriv ();
    }, "1..20 words of each kind: every sample count with output space one byte, one sample short and none; frames cut at every half frame"});
  }
  { // undefined nibbles are refused
    cfg.scenarios.push_back ({"decode undefined words", [=] (Ctx &c) {
      int nib = 2 + c.pick (2), pos = c.pick (13); bool big = c.flip ();
      uint32_t dn = nib == 2 ? 0 : 3;
      std::vector<SteimWord> ws;
      for (int i = 0; i < 13; i++) ws.push_back (word (2, 1, 0));
      Vi e = expand (ws, 7);
      bytes d = steim_frames (2, ws, 7, e.back (), big);
      uint32_t w0 = (uint32_t)get (d, 0, 4, big);
      w0 = (w0 & ~(3u << (30 - 2 * (pos + 3)))) | (uint32_t)nib << (30 - 2 * (pos + 3));
      set (d, 0, w0, 4, big); set (d, (pos + 3) * 4, dn << 30 | 0x01020304, 4, big);
      for (int n : {52, 48, 4 * pos + 4, 4 * pos + 1})
      {
        Buf pay (d); char st = 0; bytes z (n * 4, 'z'); Buf out (z);
        int64_t rv = ms_decode_data (pay.p, pay.n, 11, n, out.p, z.size (), &st, big, "", 0);
        c.step (); c.nontriv ();
        c.state (Hash ().i (nib).i (pos).i (rv));
        if (rv >= 0 && n > 4 * pos) fail ("word with undefined code at %d accepted: %lld samples", pos, (long long)rv);
      }
    }, "each undefined Steim-2 code at each word position, with four counts of samples that include it, both byte orders"});
  }
  return run (argc, argv, cfg);
}
