// Independent reference pieces used by the harnesses: calendar, CRC, record formats, sample encodings, and an
// accounting / failure-injecting allocator and log sink for the library.  Nothing here calls library code except to
// install hooks through its public interface.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <cfloat>
#include <climits>
extern "C" {
#include <libmseed.h>
}

namespace ref {
static const int64_t NS1 = 1000000000; // nanoseconds per second
typedef __int128 i128;
using bytes = std::string;

inline bytes dbl_s (double v) { return mc::fmt ("%.17g", v); }
inline bytes hex (const bytes &b, size_t max = 64)
{
  bytes o;
  for (size_t i = 0; i < b.size () && i < max; i++) o += mc::fmt ("%02x", (unsigned char)b[i]);
  if (b.size () > max) o += "..";
  return o;
}

// ---------------------------------------------------------------- calendar (days since 1970-01-01, Gregorian)
inline int64_t days_from_civil (int64_t y, int m, int d)
{
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400;
  int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
inline bool leap (int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int ydays (int64_t y) { return leap (y) ? 366 : 365; }
inline int mdays (int64_t y, int m)
{
  static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return md[m - 1] + (m == 2 && leap (y));
}
struct Civil { int64_t year; int yday, month, mday, hour, min, sec; uint32_t nsec; };
inline int64_t fdiv (int64_t a, int64_t b) { int64_t q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
inline Civil civil (int64_t t) // nanoseconds since the epoch
{
  Civil c;
  int64_t s = fdiv (t, 1000000000LL);
  c.nsec    = (uint32_t)(t - s * 1000000000LL);
  int64_t d = fdiv (s, 86400), r = s - d * 86400;
  c.hour = (int)(r / 3600); c.min = (int)(r % 3600 / 60); c.sec = (int)(r % 60);
  int64_t y = 1970 + fdiv (d, 366);
  if (d < 0) y = 1970 + fdiv (d, 365) - 1;
  while (days_from_civil (y + 1, 1, 1) <= d) y++;
  while (days_from_civil (y, 1, 1) > d) y--;
  c.year = y;
  c.yday = (int)(d - days_from_civil (y, 1, 1)) + 1;
  int m = 1, rest = c.yday;
  while (rest > mdays (y, m)) rest -= mdays (y, m++);
  c.month = m; c.mday = rest;
  return c;
}
// exact, possibly unrepresentable
inline i128 epoch_ns (int64_t y, int yday, int h, int m, int s, int64_t ns)
{
  return (((i128)days_from_civil (y, 1, 1) + yday - 1) * 86400 + h * 3600 + m * 60 + s) * 1000000000 + ns;
}
inline i128 epoch_md (int64_t y, int mon, int md, int h, int m, int s, int64_t ns)
{
  return ((i128)days_from_civil (y, mon, md) * 86400 + h * 3600 + m * 60 + s) * 1000000000 + ns;
}

// ---------------------------------------------------------------- bytes
inline void put (bytes &b, uint64_t v, int n, bool big)
{
  for (int i = 0; i < n; i++) b += (char)(uint8_t)(v >> 8 * (big ? n - 1 - i : i));
}
inline bytes enc (uint64_t v, int n, bool big) { bytes b; put (b, v, n, big); return b; }
inline uint64_t get (const bytes &b, size_t o, int n, bool big)
{
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = v << 8 | (uint8_t)b.at (o + (big ? i : n - 1 - i));
  return v;
}
inline void set (bytes &b, size_t o, uint64_t v, int n, bool big) { b.replace (o, n, enc (v, n, big)); }
inline uint64_t dbits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
inline double bitsd (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }
inline uint32_t fbits (float d) { uint32_t u; memcpy (&u, &d, 4); return u; }
inline float bitsf (uint32_t u) { float d; memcpy (&d, &u, 4); return d; }

inline uint32_t crc32c (const bytes &b)
{
  uint32_t c = 0xffffffff;
  for (unsigned char ch : b)
  {
    c ^= ch;
    for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1;
  }
  return ~c;
}

// exactly-sized heap copy: a detector sees any access outside it
struct Buf
{
  char *p; size_t n; bytes orig;
  Buf (const bytes &b) : p ((char *)malloc (b.size () ? b.size () : 1)), n (b.size ()), orig (b) { memcpy (p, b.data (), n); }
  ~Buf () { free (p); }
  Buf (const Buf &) = delete;
  bool same () const { return memcmp (p, orig.data (), n) == 0; }
};

// ---------------------------------------------------------------- version 3 records
struct Rec3
{
  uint8_t flags = 0, encoding = 3, pubver = 1;
  uint32_t nsec = 0; uint16_t year = 2020, yday = 1; uint8_t hour = 0, min = 0, sec = 0;
  double samprate = 1.0;
  uint32_t numsamples = 0, crc = 0;
  bytes sid = "FDSN:XX_TEST__L_H_Z", extra, data;
  int crcmode = 0; // 0 correct
  void settime (int64_t t)
  {
    Civil c = civil (t);
    nsec = c.nsec; year = (uint16_t)c.year; yday = (uint16_t)c.yday; hour = c.hour; min = c.min; sec = c.sec;
  }
  i128 start () const { return epoch_ns (year, yday, hour, min, sec, nsec); }
  bytes build () const
  {
    bytes b = "MS\x03";
    put (b, flags, 1, 0); put (b, nsec, 4, 0); put (b, year, 2, 0); put (b, yday, 2, 0);
    put (b, hour, 1, 0); put (b, min, 1, 0); put (b, sec, 1, 0); put (b, encoding, 1, 0);
    put (b, dbits (samprate), 8, 0); put (b, numsamples, 4, 0); put (b, 0, 4, 0); put (b, pubver, 1, 0);
    put (b, sid.size (), 1, 0); put (b, extra.size (), 2, 0); put (b, data.size (), 4, 0);
    b += sid; b += extra; b += data;
    set (b, 28, crcmode ? crc : crc32c (b), 4, 0);
    return b;
  }
  // strict parse of one record; error text or empty
  bytes parse (const bytes &b)
  {
    if (b.size () < 40) return "shorter than a header";
    if (b.compare (0, 3, "MS\x03", 3)) return "bad header indicator";
    flags = get (b, 3, 1, 0); nsec = get (b, 4, 4, 0); year = get (b, 8, 2, 0); yday = get (b, 10, 2, 0);
    hour = get (b, 12, 1, 0); min = get (b, 13, 1, 0); sec = get (b, 14, 1, 0); encoding = get (b, 15, 1, 0);
    samprate = bitsd (get (b, 16, 8, 0)); numsamples = get (b, 24, 4, 0); crc = get (b, 28, 4, 0); pubver = get (b, 32, 1, 0);
    size_t sl = get (b, 33, 1, 0), el = get (b, 34, 2, 0), dl = get (b, 36, 4, 0);
    if (b.size () != 40 + sl + el + dl) return mc::fmt ("stated length %zu, real length %zu", 40 + sl + el + dl, b.size ());
    sid = b.substr (40, sl); extra = b.substr (40 + sl, el); data = b.substr (40 + sl + el);
    bytes z = b; set (z, 28, 0, 4, 0);
    if (crc32c (z) != crc) return mc::fmt ("CRC field %08x, CRC of bytes %08x", crc, crc32c (z));
    return "";
  }
};

// ---------------------------------------------------------------- version 2 records
struct Rec2
{
  bool big = true;           // header byte order
  bytes seq = "000001"; char quality = 'D'; char reserved = ' ';
  bytes sta = "TEST", loc = "", chan = "LHZ", net = "XX";
  uint16_t year = 2020, yday = 1; uint8_t hour = 0, min = 0, sec = 0; uint16_t fract = 0;
  uint16_t numsamples = 0; int16_t factor = 1, mult = 1; uint8_t act = 0, io = 0, dq = 0;
  int nblk = -1; int32_t timecorr = 0; int dataoffset = -1; int blkoffset = -1;
  std::vector<bytes> blks; // with type and room for the next-offset, in the order of the chain
  bytes data; size_t reclen = 512;
  static bytes pad (const bytes &s, size_t n) { bytes t = s.substr (0, n); t.resize (n, ' '); return t; }
  void settime (int64_t t) // resolution 100 us
  {
    Civil c = civil (t);
    fract = c.nsec / 100000; year = (uint16_t)c.year; yday = (uint16_t)c.yday; hour = c.hour; min = c.min; sec = c.sec;
  }
  bytes b1000 (int encoding, int dataorder, int exp) const
  {
    bytes b; put (b, 1000, 2, big); put (b, 0, 2, big); put (b, encoding, 1, big); put (b, dataorder, 1, big); put (b, exp, 1, big); put (b, 0, 1, big); return b;
  }
  bytes b1001 (int tq, int usec, int frames = 0) const
  {
    bytes b; put (b, 1001, 2, big); put (b, 0, 2, big); put (b, tq, 1, big); put (b, (uint8_t)usec, 1, big); put (b, 0, 1, big); put (b, frames, 1, big); return b;
  }
  bytes b100 (float rate) const
  {
    bytes b; put (b, 100, 2, big); put (b, 0, 2, big); put (b, fbits (rate), 4, big); put (b, 0, 4, big); return b;
  }
  bytes build () const
  {
    bytes b = seq; b += quality; b += reserved; b += pad (sta, 5); b += pad (loc, 2); b += pad (chan, 3); b += pad (net, 2);
    put (b, year, 2, big); put (b, yday, 2, big); put (b, hour, 1, big); put (b, min, 1, big); put (b, sec, 1, big); put (b, 0, 1, big); put (b, fract, 2, big);
    put (b, numsamples, 2, big); put (b, (uint16_t)factor, 2, big); put (b, (uint16_t)mult, 2, big);
    put (b, act, 1, big); put (b, io, 1, big); put (b, dq, 1, big); put (b, nblk >= 0 ? nblk : blks.size (), 1, big); put (b, (uint32_t)timecorr, 4, big);
    size_t end = 48; for (auto &k : blks) end += k.size ();
    int doff = dataoffset >= 0 ? dataoffset : (int)((end + 63) / 64 * 64);
    put (b, doff, 2, big); put (b, blkoffset >= 0 ? blkoffset : (blks.empty () ? 0 : 48), 2, big);
    for (size_t i = 0; i < blks.size (); i++)
    {
      bytes k = blks[i];
      set (k, 2, i + 1 < blks.size () ? b.size () + k.size () : 0, 2, big);
      b += k;
    }
    if (b.size () < (size_t)doff) b.resize (doff, 0);
    if (!data.empty ()) { if (b.size () < (size_t)doff + data.size ()) b.resize (doff + data.size (), 0); b.replace (doff, data.size (), data); }
    if (b.size () < reclen) b.resize (reclen, 0);
    if (b.size () > reclen) b.resize (reclen);
    return b;
  }
};

// one blockette under construction: type and next-offset, then fields at their published offsets
struct BT { int y = 2020, d = 100, h = 1, m = 2, s = 3, f = 4567; };
inline int64_t bt_ns (const BT &t, int usec = 0) { return (int64_t)epoch_ns (t.y, t.d, t.h, t.m, t.s, t.f * 100000LL + usec * 1000LL); }
struct Blk
{
  bytes b; bool big;
  Blk (bool big, int type, int len) : b (len, 0), big (big) { ref::set (b, 0, type, 2, big); }
  Blk &u (int o, uint64_t v, int n) { ref::set (b, o, v, n, big); return *this; }
  Blk &f (int o, float v) { return u (o, fbits (v), 4); }
  Blk &s (int o, int n, const bytes &t) { b.replace (o, n, Rec2::pad (t, n)); return *this; }
  Blk &t (int o, const BT &t) { return u (o, t.y, 2).u (o + 2, t.d, 2).u (o + 4, t.h, 1).u (o + 5, t.m, 1).u (o + 6, t.s, 1).u (o + 8, t.f, 2); }
};
static const int BLKTYPES[] = {100, 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 1000, 1001, 2000};
inline int blk_len (int type)
{
  switch (type)
  {
  case 100: return 12; case 200: return 52; case 201: return 60; case 300: return 60; case 310: return 60; case 320: return 64; case 390: return 28;
  case 395: return 16; case 400: return 16; case 405: return 6; case 500: return 200; case 1000: return 8; case 1001: return 8; case 2000: return 24;
  }
  return 0;
}
// a blockette of a type with ordinary contents; exp: length exponent for blockette 1000
inline bytes blk_sample (int type, bool big, int enc = 11, int order = 1, int exp = 9)
{
  Blk k (big, type, blk_len (type));
  BT t;
  switch (type)
  {
  case 100: k.f (4, 2.5f); break;
  case 200: k.f (4, 80.5f).f (8, 0.5f).f (12, 18.25f).u (16, 1, 1).t (18, t).s (28, 24, "DETECT"); break;
  case 201: k.f (4, 80.5f).f (8, 0.5f).f (12, 18.25f).u (16, 1, 1).t (18, t).s (28, 6, bytes ("\1\2\3\4\5\6")).u (34, 2, 1).u (35, 1, 1).s (36, 24, "MURDOCKD"); break;
  case 300: k.t (4, t).u (14, 5, 1).u (15, 0x0f, 1).u (16, 12000, 4).u (20, 34000, 4).f (24, 1.5f).s (28, 3, "BC0").u (32, 7, 4).s (36, 12, "RESISTIVE").s (48, 12, "3DB@10HZ"); break;
  case 310: k.t (4, t).u (15, 0x1c, 1).u (16, 12000, 4).f (20, 20.0f).f (24, 1.5f).s (28, 3, "BC0").u (32, 7, 4).s (36, 12, "RESISTIVE").s (48, 12, "3DB@10HZ"); break;
  case 320: k.t (4, t).u (15, 0x1c, 1).u (16, 12000, 4).f (20, 1.5f).s (24, 3, "BC0").u (28, 7, 4).s (32, 12, "RESISTIVE").s (44, 12, "3DB@10HZ").s (56, 8, "WHITE"); break;
  case 390: k.t (4, t).u (15, 0x0c, 1).u (16, 12000, 4).f (20, 1.5f).s (24, 3, "BC0"); break;
  case 395: k.t (4, t); break;
  case 400: k.f (4, 90).f (8, 1); break;
  case 500: k.f (4, 32.5f).t (8, t).u (18, 7, 1).u (19, 100, 1).u (20, 15, 4).s (24, 16, "MISSING").s (40, 32, "CLOCK 5").s (72, 128, "Drift=-1973usec, Satellite SNR in dB=23"); break;
  case 1000: k.u (4, enc, 1).u (5, order, 1).u (6, exp, 1); break;
  case 1001: k.u (4, 55, 1).u (5, 33, 1).u (7, 3, 1); break;
  case 2000: k.u (4, 24, 2).u (6, 20, 2).u (8, 1, 4).u (12, 1, 1).u (13, 0, 1); break;
  }
  return k.b;
}

// ---------------------------------------------------------------- plain encodings
inline bytes enc_plain (int encoding, const std::vector<double> &v, bool big)
{
  bytes b;
  for (double x : v)
    switch (encoding)
    {
    case 0: b += (char)(int)x; break;
    case 1: put (b, (uint16_t)(int16_t)x, 2, big); break;
    case 3: put (b, (uint32_t)(int32_t)x, 4, big); break;
    case 4: put (b, fbits ((float)x), 4, big); break;
    case 5: put (b, dbits (x), 8, big); break;
    }
  return b;
}

// ---------------------------------------------------------------- Steim frames
// Decode a sequence of 64-byte frames by the published definition. Returns "" or why it is not well formed.
struct SteimOut { std::vector<int32_t> v; int32_t x0 = 0, xn = 0; bytes err; };
inline int32_t sx (uint32_t v, int bits) { return (int32_t)(v << (32 - bits)) >> (32 - bits); }
inline SteimOut steim_decode (const bytes &d, int version, size_t nsamp, bool big)
{
  SteimOut o;
  std::vector<int32_t> diffs;
  size_t frames = d.size () / 64;
  for (size_t f = 0; f < frames && diffs.size () < nsamp; f++)
  {
    uint32_t w0 = (uint32_t)get (d, f * 64, 4, big);
    for (int w = 1; w < 16 && diffs.size () < nsamp; w++)
    {
      uint32_t x = (uint32_t)get (d, f * 64 + w * 4, 4, big);
      int nib    = w0 >> (30 - 2 * w) & 3;
      if (f == 0 && w == 1) { o.x0 = (int32_t)x; if (nib) o.err = "nonzero nibble for X0"; continue; }
      if (f == 0 && w == 2) { o.xn = (int32_t)x; if (nib) o.err = "nonzero nibble for XN"; continue; }
      int dn = x >> 30;
      if (nib == 0) continue;
      else if (nib == 1) for (int k = 0; k < 4; k++) diffs.push_back (sx ((uint8_t)d[f * 64 + w * 4 + k], 8));
      else if (version == 1)
      {
        if (nib == 2) for (int k = 0; k < 2; k++) diffs.push_back (sx ((uint32_t)get (d, f * 64 + w * 4 + 2 * k, 2, big), 16));
        else diffs.push_back ((int32_t)x);
      }
      else if (nib == 2)
      {
        if (dn == 1) diffs.push_back (sx (x & 0x3fffffff, 30));
        else if (dn == 2) for (int k = 1; k >= 0; k--) diffs.push_back (sx (x >> 15 * k & 0x7fff, 15));
        else if (dn == 3) for (int k = 2; k >= 0; k--) diffs.push_back (sx (x >> 10 * k & 0x3ff, 10));
        else o.err = "undefined dnib";
      }
      else
      {
        if (dn == 0) for (int k = 4; k >= 0; k--) diffs.push_back (sx (x >> 6 * k & 0x3f, 6));
        else if (dn == 1) for (int k = 5; k >= 0; k--) diffs.push_back (sx (x >> 5 * k & 0x1f, 5));
        else if (dn == 2) for (int k = 6; k >= 0; k--) diffs.push_back (sx (x >> 4 * k & 0xf, 4));
        else o.err = "undefined dnib";
      }
    }
  }
  if (diffs.size () < nsamp) { if (o.err.empty ()) o.err = mc::fmt ("frames hold %zu differences, %zu needed", diffs.size (), nsamp); }
  uint32_t cur = (uint32_t)o.x0;
  for (size_t i = 0; i < diffs.size () && i < nsamp; i++)
  {
    if (i) cur += (uint32_t)diffs[i];
    o.v.push_back ((int32_t)cur);
  }
  if (o.err.empty () && nsamp && o.v.size () == nsamp && o.v.back () != o.xn) o.err = "integration constant XN is not the last sample";
  return o;
}
// word kinds: 0 none; steim1 1:4x8 2:2x16 3:1x32; steim2 1:4x8 2:1x30 3:2x15 4:3x10 5:5x6 6:6x5 7:7x4
inline int steim_per (int version, int kind)
{
  static const int s1[] = {0, 4, 2, 1}, s2[] = {0, 4, 1, 2, 3, 5, 6, 7};
  return version == 1 ? s1[kind] : s2[kind];
}
inline int steim_bits (int version, int kind)
{
  static const int s1[] = {0, 8, 16, 32}, s2[] = {0, 8, 30, 15, 10, 6, 5, 4};
  return version == 1 ? s1[kind] : s2[kind];
}
inline int steim_kinds (int version) { return version == 1 ? 4 : 8; }
inline uint32_t steim_word (int version, int kind, const int32_t *d)
{
  uint32_t w = 0;
  int n = steim_per (version, kind), b = steim_bits (version, kind);
  for (int i = 0; i < n; i++) w = (b == 32 ? 0 : w << b) | ((uint32_t)d[i] & (b == 32 ? 0xffffffffu : (1u << b) - 1));
  if (version == 2) w |= (uint32_t)(kind == 2 ? 1 : kind == 3 ? 2 : kind == 4 ? 3 : kind == 5 ? 0 : kind == 6 ? 1 : kind == 7 ? 2 : 0) << 30;
  return w;
}
inline int steim_nib (int version, int kind) { return version == 1 ? kind : kind == 0 ? 0 : kind == 1 ? 1 : kind <= 4 ? 2 : 3; }
// little endian payloads are not part of the published definition: the convention is that every element (byte, 16-bit
// half or 32-bit word) is stored in that order at its place
inline bytes steim_word_bytes (int version, int kind, const int32_t *d, bool big)
{
  bytes b;
  if (kind == 1) for (int k = 0; k < 4; k++) put (b, (uint8_t)d[k], 1, big);
  else if (version == 1 && kind == 2) for (int k = 0; k < 2; k++) put (b, (uint16_t)d[k], 2, big);
  else put (b, steim_word (version, kind, d), 4, big);
  return b;
}
struct SteimWord { int kind; std::vector<int32_t> d; };
inline bytes steim_frames (int version, const std::vector<SteimWord> &words, int32_t x0, int32_t xn, bool big, int extraframes = 0)
{
  bytes out;
  size_t i = 0;
  for (int f = 0; f == 0 || i < words.size () || extraframes-- > 0; f++)
  {
    uint32_t w0 = 0;
    bytes body;
    int k = 1;
    if (f == 0) { put (body, (uint32_t)x0, 4, big); put (body, (uint32_t)xn, 4, big); k = 3; }
    for (; k < 16 && i < words.size (); k++, i++)
    {
      w0 |= (uint32_t)steim_nib (version, words[i].kind) << (30 - 2 * k);
      body += steim_word_bytes (version, words[i].kind, words[i].d.data (), big);
    }
    body.resize (60, 0);
    put (out, w0, 4, big);
    out += body;
  }
  return out;
}
// simple greedy reference encoder (one of many valid frame sequences)
inline bytes steim_encode (int version, const std::vector<int32_t> &v, bool big, int32_t prev = 0, bool haveprev = false)
{
  std::vector<int32_t> d;
  for (size_t i = 0; i < v.size (); i++) d.push_back (i ? (int32_t)((uint32_t)v[i] - (uint32_t)v[i - 1]) : haveprev ? (int32_t)((uint32_t)v[0] - (uint32_t)prev) : 0);
  std::vector<SteimWord> ws;
  size_t i = 0;
  static const int o1[] = {1, 2, 3}, o2[] = {7, 6, 5, 1, 4, 3, 2};
  while (i < d.size ())
  {
    bool done = false;
    for (int q = 0; q < (version == 1 ? 3 : 7) && !done; q++)
    {
      int k = version == 1 ? o1[q] : o2[q], n = steim_per (version, k), b = steim_bits (version, k);
      if (i + n > d.size ()) continue;
      bool fit = true;
      for (int j = 0; j < n; j++) if (b < 32 && (d[i + j] < -(1 << (b - 1)) || d[i + j] >= (1 << (b - 1)))) fit = false;
      if (!fit) continue;
      SteimWord w; w.kind = k; w.d.assign (d.begin () + i, d.begin () + i + n); ws.push_back (w); i += n; done = true;
    }
    if (!done) return "";
  }
  return steim_frames (version, ws, v.empty () ? 0 : v[0], v.empty () ? 0 : v.back (), big);
}

// ---------------------------------------------------------------- allocator hooks
struct Mem
{
  int64_t live = 0, count = 0, failat = -1, failed = 0, failspan = 1; // failat: index of the first of failspan allocations that fail
  bool bad = false;
  std::set<void *> set;
  bool track = false;
};
inline Mem &mem () { static Mem m; return m; }
inline bool mem_fail () { Mem &m = mem (); if (m.failat < 0) return false; int64_t i = m.count++; if (i < m.failat || i - m.failat >= m.failspan) return false; m.failed++; return true; }
struct NoFail { int64_t at; NoFail () : at (mem ().failat) { mem ().failat = -1; } ~NoFail () { mem ().failat = at; } }; // memory of the harness itself
// the 10 MiB read buffers are recycled: mapping and unmapping them dominates otherwise
struct BigBlocks { std::map<size_t, std::vector<void *>> idle; std::map<void *, size_t> used; };
inline BigBlocks &bigblocks () { static BigBlocks b; return b; }
inline void *mem_malloc (size_t n)
{
  if (mem_fail ()) return nullptr;
  void *p;
  if (n >= MAXRECLEN && n <= MAXRECLEN + (1 << 20))
  {
    BigBlocks &bb = bigblocks ();
    auto &idle = bb.idle[n];
    if (idle.empty ()) p = malloc (n);
    else { p = idle.back (); idle.pop_back (); }
    if (p) bb.used[p] = n;
  }
  else p = malloc (n);
  if (p) { mem ().live++; if (mem ().track) mem ().set.insert (p); }
  return p;
}
inline void *mem_realloc (void *o, size_t n)
{
  if (mem_fail ()) return nullptr;
  if (o && mem ().track && !mem ().set.count (o)) mem ().bad = true;
  if (o) bigblocks ().used.erase (o);
  void *p = realloc (o, n);
  if (p && !o) mem ().live++;
  if (p && mem ().track) { if (o) mem ().set.erase (o); mem ().set.insert (p); }
  return p;
}
inline void mem_free (void *p)
{
  if (p)
  {
    mem ().live--;
    if (mem ().track) { if (!mem ().set.count (p)) mem ().bad = true; mem ().set.erase (p); }
    BigBlocks &bb = bigblocks ();
    auto it = bb.used.find (p);
    if (it != bb.used.end ()) { bb.idle[it->second].push_back (p); bb.used.erase (it); return; }
  }
  free (p);
}
inline void mem_install (bool track = false)
{
  mem ().track = track;
  libmseed_memory.malloc = mem_malloc; libmseed_memory.realloc = mem_realloc; libmseed_memory.free = mem_free;
}
struct MemCheck // everything allocated through the hooks since construction is gone again
{
  int64_t l0;
  MemCheck () : l0 (mem ().live) {}
  void done (const char *what) { if (mem ().live != l0) mc::fail ("%s: %lld library allocation(s) not released", what, (long long)(mem ().live - l0)); }
};

// ---------------------------------------------------------------- log sink
struct Log { bytes last; int count = 0, errors = 0; bool keep = false; std::vector<bytes> all; };
inline Log &log () { static Log l; return l; }
inline void log_sink (const char *s) { log ().count++; if (log ().keep) log ().all.push_back (s); else log ().last = s; }
inline void log_esink (const char *s) { log ().errors++; log_sink (s); }
inline void log_install () { ms_rloginit (log_sink, "", log_esink, "", 0); }
inline void setup () { log_install (); mem_install (); }

// ---------------------------------------------------------------- packing through the library
struct Packed { int rc = 0; int64_t n = -77; std::vector<bytes> recs; };
inline void pack_handler (char *r, int l, void *h) { ((Packed *)h)->recs.push_back (bytes (r, l)); }
inline Packed pack_all (const MS3Record *m, uint32_t flags)
{
  Packed p;
  p.rc = msr3_pack (m, pack_handler, &p, &p.n, flags, 0);
  return p;
}

inline bytes msr_str (const MS3Record *m)
{
  return mc::fmt ("len=%d sid=%s fv=%d flags=%02x start=%lld rate=%.17g enc=%d pub=%d samplecnt=%lld crc=%08x xlen=%d dlen=%u nsamp=%lld type=%c", m->reclen, m->sid, m->formatversion, m->flags,
                  (long long)m->starttime, m->samprate, m->encoding, m->pubversion, (long long)m->samplecnt, m->crc, m->extralength, m->datalength, (long long)m->numsamples, m->sampletype ? m->sampletype : '-');
}
} // namespace ref
