// P27: printed headers, printed extra headers and header diagnoses state what the record holds; verbosity changes nothing.
#include "world.hpp"
using namespace world;

// ---------------------------------------------------------------- what was printed
static std::vector<bytes> gLines; static std::vector<bytes> gErr; static bytes gText; static bool gOpen;
static void psink (const char *s)
{
  bytes t = s; gText += t;
  bool cont = gOpen && t.find (": ") == bytes::npos; // some lines are printed in pieces
  if (cont) gLines.back () += t; else gLines.push_back (t);
  gOpen = t.empty () || t.back () != '\n';
}
static void esink (const char *s) { gErr.push_back (s); }
static void quiet () { ms_rloginit (psink, "", esink, "", 0); gLines.clear (); gErr.clear (); gText.clear (); gOpen = false; }
static bytes trim (const bytes &s) { size_t a = s.find_first_not_of (" \n"), b = s.find_last_not_of (" \n"); return a == bytes::npos ? bytes () : s.substr (a, b - a + 1); }
struct Section { bytes name; std::vector<std::pair<bytes, bytes>> kv; std::map<bytes, std::vector<bytes>> bits; };
// lines as label and value, blockettes as sections of their own
static std::vector<Section> sections ()
{
  std::vector<Section> v (1);
  bytes last;
  for (auto &l : gLines)
  {
    bytes t = trim (l);
    if (t.compare (0, 10, "BLOCKETTE ") == 0) { v.push_back (Section ()); v.back ().name = t.substr (10, t.find (':') - 10); continue; }
    if (t.compare (0, 4, "[Bit") == 0) { v.back ().bits[last].push_back (t); continue; }
    size_t p = t.find (": ");
    if (p == bytes::npos) { if (t.size () && t.back () == ':') { last = t.substr (0, t.size () - 1); v.back ().kv.push_back ({last, ""}); } continue; }
    last = t.substr (0, p); v.back ().kv.push_back ({last, trim (t.substr (p + 2))});
  }
  return v;
}
static void expect (const Section &s, const bytes &label, const bytes &val, bool suffix = false)
{
  bytes seen; int n = 0; bool ok = false;
  for (auto &k : s.kv) if (k.first == label) { n++; seen = k.second; bytes w = trim (val); ok = suffix ? seen.size () >= w.size () && seen.compare (seen.size () - w.size (), w.size (), w) == 0 : seen == w; }
  if (!n) fail ("'%s' of %s is not printed", label.c_str (), s.name.empty () ? "the header" : s.name.c_str ());
  if (n > 1) fail ("'%s' of %s is printed %d times", label.c_str (), s.name.c_str (), n);
  if (!ok) fail ("'%s' of %s printed as '%s', the record has '%s'", label.c_str (), s.name.empty () ? "the header" : s.name.c_str (), seen.c_str (), trim (val).c_str ());
}
static bytes flags8 (int b) { bytes s = "["; for (int i = 7; i >= 0; i--) s += (b >> i & 1) ? '1' : '0'; return s + "] 8 bits"; }
static void expect_bits (const Section &s, const bytes &label, int b, int mask)
{
  int seen = 0; auto it = s.bits.find (label);
  if (it != s.bits.end ()) for (auto &l : it->second) { int k = -1; if (sscanf (l.c_str (), "[Bit %d]", &k) != 1 || k < 0 || k > 7) fail ("unreadable flag line '%s'", l.c_str ()); if (seen >> k & 1) fail ("bit %d of %s listed twice", k, label.c_str ()); seen |= 1 << k; }
  if (seen != (b & mask)) fail ("bits listed for %s: %02x, the record has %02x", label.c_str (), seen, b & mask);
}

// ---------------------------------------------------------------- fields by the published layouts
enum K { U8, I8, U16, I16, U32, I32, F32, CH, TXT, TIME, FLAGS, U8P, F32P, SUF, SNR, U8x2, U8x3 };
struct F { const char *label; int off; K k; int n; int level; };
static const F HEAD2[] = {
  {"sequence number", 0, CH, 6, 1}, {"data quality indicator", 6, CH, 1, 1}, {"reserved", 7, CH, 1, 1}, {"station code", 8, CH, 5, 1}, {"location ID", 13, CH, 2, 1}, {"channel codes", 15, CH, 3, 1}, {"network code", 18, CH, 2, 1},
  {"start time", 20, TIME, 10, 1}, {"number of samples", 30, U16, 0, 1}, {"sample rate multiplier", 34, I16, 0, 1}, {"activity flags", 36, FLAGS, 0xff, 2}, {"I/O and clock flags", 37, FLAGS, 0xff, 2}, {"data quality flags", 38, FLAGS, 0xff, 2},
  {"number of blockettes", 39, U8, 0, 1}, {"time correction", 40, I32, 0, 1}, {"data offset", 44, U16, 0, 1}, {"first blockette offset", 46, U16, 0, 1}};
static const std::map<int, std::vector<F>> BLKF = {
  {100, {{"actual sample rate", 4, F32, 0, 11}, {"undefined flags", 8, FLAGS, 0, 2}, {"reserved bytes (3)", 9, U8x3, 0, 2}}},
  {200, {{"signal amplitude", 4, F32, 0, 1}, {"signal period", 8, F32, 0, 1}, {"background estimate", 12, F32, 0, 1}, {"event detection flags", 16, FLAGS, -1, 2}, {"reserved byte", 17, U8, 0, 2}, {"signal onset time", 18, TIME, 0, 1}, {"detector name", 28, TXT, 24, 1}}},
  {201, {{"signal amplitude", 4, F32, 0, 1}, {"signal period", 8, F32, 0, 1}, {"background estimate", 12, F32, 0, 1}, {"event detection flags", 16, FLAGS, -1, 1}, {"reserved byte", 17, U8, 0, 2}, {"signal onset time", 18, TIME, 0, 1}, {"SNR values", 28, SNR, 0, 1}, {"loopback value", 34, U8, 0, 1}, {"pick algorithm", 35, U8, 0, 1}, {"detector name", 36, TXT, 24, 1}}},
  {300, {{"calibration start time", 4, TIME, 0, 1}, {"number of calibrations", 14, U8, 0, 1}, {"calibration flags", 15, FLAGS, 0x0f, 1}, {"step duration", 16, U32, 0, 1}, {"interval duration", 20, U32, 0, 1}, {"signal amplitude", 24, F32, 0, 1}, {"input signal channel", 28, TXT, 3, 1}, {"reserved byte", 31, U8, 0, 2}, {"reference amplitude", 32, U32, 0, 1}, {"coupling", 36, TXT, 12, 1}, {"rolloff", 48, TXT, 12, 1}}},
  {310, {{"calibration start time", 4, TIME, 0, 1}, {"calibration flags", 15, FLAGS, 0x7c, 1}, {"calibration duration", 16, U32, 0, 1}, {"signal period", 20, F32, 0, 1}, {"signal amplitude", 24, F32, 0, 1}, {"input signal channel", 28, TXT, 3, 1}, {"reference amplitude", 32, U32, 0, 1}, {"coupling", 36, TXT, 12, 1}, {"rolloff", 48, TXT, 12, 1}}},
  {320, {{"calibration start time", 4, TIME, 0, 1}, {"calibration flags", 15, FLAGS, 0x1c, 1}, {"calibration duration", 16, U32, 0, 1}, {"peak-to-peak amplitude", 20, F32, 0, 1}, {"input signal channel", 24, TXT, 3, 1}, {"reference amplitude", 28, U32, 0, 1}, {"coupling", 32, TXT, 12, 1}, {"rolloff", 44, TXT, 12, 1}, {"noise type", 56, TXT, 8, 1}}},
  {390, {{"calibration start time", 4, TIME, 0, 1}, {"calibration flags", 15, FLAGS, 0x0c, 1}, {"calibration duration", 16, U32, 0, 1}, {"signal amplitude", 20, F32, 0, 1}, {"input signal channel", 24, TXT, 3, 1}}},
  {395, {{"calibration end time", 4, TIME, 0, 1}, {"reserved bytes (2)", 14, U8x2, 0, 2}}},
  {400, {{"beam azimuth (degrees)", 4, F32, 0, 1}, {"beam slowness (sec/degree)", 8, F32, 0, 1}, {"configuration", 12, U16, 0, 1}, {"reserved bytes (2)", 14, U8x2, 0, 2}}},
  {405, {{"first delay value", 4, U16, 0, 1}}},
  {500, {{"VCO correction", 4, F32P, 0, 1}, {"time of exception", 8, TIME, 0, 1}, {"usec", 18, I8, 0, 1}, {"reception quality", 19, U8P, 0, 1}, {"exception count", 20, U32, 0, 1}, {"exception type", 24, TXT, 16, 1}, {"clock model", 40, TXT, 32, 1}, {"clock status", 72, TXT, 128, 1}}},
  {1000, {{"encoding", 4, SUF, 0, 1}, {"byte order", 5, SUF, 0, 1}, {"record length", 6, SUF, 0, 1}, {"reserved byte", 7, U8, 0, 2}}},
  {1001, {{"timing quality", 4, U8P, 0, 1}, {"micro second", 5, I8, 0, 1}, {"reserved byte", 6, U8, 0, 2}, {"frame count", 7, U8, 0, 1}}},
  {2000, {{"blockette length", 4, U16, 0, 1}, {"data offset", 6, U16, 0, 1}, {"record number", 8, U32, 0, 1}, {"byte order", 12, SUF, 0, 1}, {"data flags", 13, FLAGS, -1, 1}, {"number of headers", 14, U8, 0, 1}}}};
static void fields (const Section &s, const bytes &r, size_t at, const F *f, size_t nf, bool big, int details)
{
  for (size_t i = 0; i < nf; i++)
  {
    const F &x = f[i]; size_t o = at + x.off;
    int lev = x.level > 10 ? x.level - 10 : x.level;
    if (details < lev) continue;
    auto U = [&] (int n) { return (unsigned long long)get (r, o, n, big); };
    float fl = bitsf ((uint32_t)(x.k == F32 || x.k == F32P ? U (4) : 0));
    switch (x.k)
    {
    case U8: expect (s, x.label, fmt ("%llu", U (1))); break;
    case I8: expect (s, x.label, fmt ("%d", (int8_t)U (1))); break;
    case U16: expect (s, x.label, fmt ("%llu", U (2))); break;
    case I16: expect (s, x.label, fmt ("%d", (int16_t)U (2))); break;
    case U32: expect (s, x.label, fmt ("%llu", U (4))); break;
    case I32: expect (s, x.label, fmt ("%d", (int32_t)U (4))); break;
    case F32: expect (s, x.label, fmt (x.level > 10 ? "%.10g" : "%g", fl)); break;
    case F32P: expect (s, x.label, fmt ("%g%%", fl)); break;
    case U8P: expect (s, x.label, fmt ("%llu%%", U (1))); break;
    case CH: { bytes v = r.substr (o, x.n); if (v.find ('\0') == bytes::npos && v.find ('\n') == bytes::npos && v.find (": ") == bytes::npos) expect (s, x.label, "'" + v + "'"); break; }
    case TXT: { bytes v = bytes (r.substr (o, x.n).c_str ()); if (v.find ('\n') == bytes::npos && v.find (": ") == bytes::npos) expect (s, x.label, v); break; }
    case TIME: expect (s, x.label, fmt ("%llu,%llu,%d:%d:%d.%04llu (unused: %d)", (unsigned long long)get (r, o, 2, big), (unsigned long long)get (r, o + 2, 2, big), (int)get (r, o + 4, 1, 0), (int)get (r, o + 5, 1, 0), (int)get (r, o + 6, 1, 0), (unsigned long long)get (r, o + 8, 2, big), (int)get (r, o + 7, 1, 0))); break;
    case FLAGS: expect (s, x.label, flags8 (U (1))); if (x.n > 0) expect_bits (s, x.label, U (1), x.n); break;
    case SUF: expect (s, x.label, fmt ("(val:%llu)", U (1)), true); break;
    case SNR: { bytes v; for (int k = 0; k < 6; k++) v += fmt ("%d  ", (int)get (r, o + k, 1, 0)); expect (s, x.label, v); break; }
    case U8x2: expect (s, x.label, fmt ("%llu,%d", U (1), (int)get (r, o + 1, 1, 0))); break;
    case U8x3: expect (s, x.label, fmt ("%llu,%d,%d", U (1), (int)get (r, o + 1, 1, 0), (int)get (r, o + 2, 1, 0))); break;
    }
  }
}
static bool alnum_sp (const bytes &s) { for (unsigned char ch : s) if (!((ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z') || ch == ' ')) return false; return true; }
static bool digits (const bytes &s) { for (unsigned char ch : s) if (ch < '0' || ch > '9') return false; return true; }
// invalid fields of a version 2 fixed header
static int bad2 (const bytes &r, bool big)
{
  auto U = [&] (int o, int n) { return (unsigned)get (r, o, n, big); };
  int e = !digits (r.substr (0, 6)); e += !strchr ("DRQM", r[6]) || !r[6]; e += !(r[7] == ' ' || !r[7]);
  e += !alnum_sp (r.substr (8, 5)); e += !alnum_sp (r.substr (13, 2)); e += !alnum_sp (r.substr (15, 3)); e += !alnum_sp (r.substr (18, 2));
  e += U (20, 2) < 1900 || U (20, 2) > 2100; e += U (22, 2) < 1 || U (22, 2) > 366; e += U (24, 1) > 23; e += U (25, 1) > 59; e += U (26, 1) > 60; e += U (28, 2) > 9999; e += U (30, 2) > 20000;
  return e;
}
static bool enc_ok (int e) { return (e >= 0 && e <= 5) || (e >= 10 && e <= 19) || (e >= 30 && e <= 33); }
// a version 2 record with one blockette of a type, with or without blockette 1000
static Rec2 rec2 (int type, bool big, bool b1000)
{
  Rec2 x; x.big = big; x.yday = 45; x.hour = 3; x.min = 2; x.sec = 1; x.fract = 1234; x.numsamples = 3; x.factor = 20; x.mult = -3; x.act = 0x41; x.io = 0x25; x.dq = 0x83; x.timecorr = -1234; x.loc = "00"; x.reclen = 512;
  if (b1000) x.blks.push_back (x.b1000 (3, big, 9));
  if (type && type != 1000) x.blks.push_back (blk_sample (type, big, 3, big, 9));
  x.data = enc_plain (3, {1, 2, 3}, big);
  return x;
}
static const int DEFTYPES[] = {0, 100, 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 1000, 1001, 2000};
static int raw2 (const bytes &r, int details, int swap)
{
  Buf b (r); quiet ();
  int rc = ms_parse_raw2 (b.p, (int)b.n, details, swap);
  if (!b.same ()) fail ("printing changed the record");
  if ((rc != 0) != (gErr.size () != 0)) fail ("%d errors returned, %zu reported%s%s", rc, gErr.size (), gErr.size () ? ": " : "", gErr.size () ? gErr[0].c_str () : "");
  if (rc < 0) fail ("negative count %d", rc);
  if (!details && gLines.size ()) fail ("printed without details: %s", gLines[0].c_str ());
  return rc;
}
// ---------------------------------------------------------------- JSON texts
static bytes jvalue (Ctx &c, int depth)
{
  static const std::vector<bytes> A = {"1", "\"a\"", "\"a:b,c\"", "\"{[]}\"", "\"q\\\"x:y\"", "\"\\\\\"", "\"\\\\\\\"\"", "true", "-1.5e3", "\"\"", "\"\\u0041 b\""};
  int k = c.pick ((int)A.size () + (depth > 0 ? 6 : 0));
  if (k < (int)A.size ()) return A[k];
  k -= A.size ();
  if (k == 0) return "[]";
  if (k == 1) return "{}";
  if (k == 2) return "[" + jvalue (c, depth - 1) + "]";
  if (k == 3) return "{\"k\":" + jvalue (c, depth - 1) + "}";
  if (k == 4) return "[" + jvalue (c, depth - 1) + "," + jvalue (c, 0) + "]";
  return "{\"k,\\\"\":" + jvalue (c, 0) + ",\"l\":" + jvalue (c, depth - 1) + "}";
}
static bytes strip (const bytes &s) // white space outside of strings removed
{
  bytes o; bool in = false;
  for (size_t i = 0; i < s.size (); i++)
  {
    char ch = s[i];
    if (in) { o += ch; if (ch == '\\' && i + 1 < s.size ()) o += s[++i]; else if (ch == '"') in = false; }
    else if (ch == '"') { in = true; o += ch; }
    else if (ch != ' ' && ch != '\n') o += ch;
  }
  return o;
}
static void same_json (const bytes &printed, const bytes &doc, int indent)
{
  if (strip ("{" + printed + "}") != doc) fail ("extra headers %s printed as %s", doc.c_str (), printed.c_str ());
  if (printed.empty () || printed.back () != '\n') fail ("printed extra headers do not end the line");
  for (size_t p = 0; p < printed.size (); p = printed.find ('\n', p) + 1) if (printed.compare (p, indent, bytes (indent, ' '))) fail ("line of the extra headers is not indented: %s", printed.c_str ());
}
static bytes timestr (nstime_t t)
{
  Civil v = civil (t); bool nano = v.nsec % 1000;
  bytes s = fmt ("%04d-%02d-%02dT%02d:%02d:%02d.", (int)v.year, v.month, v.mday, v.hour, v.min, v.sec);
  s += nano ? fmt ("%09u", v.nsec) : fmt ("%06u", v.nsec / 1000);
  return s + fmt ("Z (%03d)", v.yday);
}

int main (int argc, char **argv)
{
  setup ();
  Config cfg; cfg.property = "P27";
  cfg.rule = "every record, header value, detail level and byte order of the grids below; each printed line compared with an independent reading of the record bytes";
  cfg.assumptions = {"a text field holding NUL or line breaks cuts the printed line and is not compared", "labels of the printed lines are those of the pinned commit", "the number of error reports for inconsistent blockette chains is not fixed, only that reports and return value agree"};
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");

  cfg.scenarios.push_back ({"summary", [=] (Ctx &c) {
    MS3Record *m = msr3_init (NULL);
    int det = c.pick (4);
    int what = c.pick (8);
    strcpy (m->sid, "FDSN:XX_STA_00_H_H_Z"); m->reclen = 512; m->formatversion = 3; m->starttime = T0; m->samprate = 20; m->pubversion = 2; m->samplecnt = 77; m->encoding = 11; m->crc = 0x89abcdef; m->datalength = 64; m->flags = 4;
    static const std::vector<double> rates = {0, 1, 20, 0.1, -10, -0.25, 1e-5, 123456.789, 1.0 / 3, -3, 1e12, -1e9, 99.9999999999};
    static const std::vector<nstime_t> times = {0, 1, -1, 999, 1000, -1000, T0 + 999999999, T0 + 123456000, -1500000000LL * NS1 - 5, 951868800LL * NS1 - 1, 4102444800LL * NS1 + 7000, -8520336000LL * NS1, 9214646400LL * NS1 - 1};
    switch (what)
    {
    case 0: m->flags = c.pick (256); break;
    case 1: m->pubversion = c.pick (256); break;
    case 2: m->samprate = c.of (rates); break;
    case 3: m->starttime = c.of (times); break;
    case 4: m->encoding = c.pick (256); break;
    case 5: m->samplecnt = c.one<int64_t> ({0, 1, 2147483648LL, 4294967295LL}); m->reclen = c.one<int32_t> ({40, 128, 10485760}); m->formatversion = c.one<int> ({2, 3}); break;
    case 6: m->crc = c.one<uint32_t> ({0, 1, 0xffffffffu, 0x0abcdef0}); m->datalength = c.one<uint32_t> ({0, 1, 10485000}); break;
    case 7: strcpy (m->sid, c.one<const char *> ({"", "X", "FDSN:__", "0123456789012345678901234567890123456789012345678901234567890", "other id %s %d"})); break;
    }
    bytes x; if (c.flip ()) { x = "{\"a\":{\"b\":[1,\"q\\\"x:y\"]}}"; m->extra = (char *)x.c_str (); m->extralength = x.size (); }
    bytes before = dump (m);
    quiet (); msr3_print (m, det);
    c.step (); c.nontriv (); c.state (Hash ().s (gText));
    if (gErr.size ()) fail ("error reported: %s", gErr[0].c_str ());
    double hz = m->samprate < 0 ? -1.0 / m->samprate : m->samprate;
    if (!det)
    {
      bytes e = fmt ("%s, %d, %d, %lld samples, %.10g Hz, %s\n", m->sid, m->pubversion, m->reclen, (long long)m->samplecnt, hz, timestr (m->starttime).c_str ());
      if (gText != e) fail ("printed '%s', expected '%s'", gText.c_str (), e.c_str ());
    }
    else
    {
      bytes first = fmt ("%s, version %d, %d bytes (format: %d)\n", m->sid, m->pubversion, m->reclen, m->formatversion);
      if (gText.compare (0, first.size (), first)) fail ("first line is '%s', expected '%s'", gLines[0].c_str (), first.c_str ());
      gLines.erase (gLines.begin ());
      bytes all = gText; Section s = sections ()[0];
      expect (s, "start time", timestr (m->starttime)); expect (s, "number of samples", fmt ("%lld", (long long)m->samplecnt)); expect (s, "sample rate (Hz)", fmt ("%.10g", hz));
      if (det > 1) { expect (s, "flags", flags8 (m->flags)); expect_bits (s, "flags", m->flags, 0xff); }
      expect (s, "CRC", fmt ("0x%0X", m->crc)); expect (s, "extra header length", fmt ("%d bytes", m->extralength)); expect (s, "data payload length", fmt ("%u bytes", m->datalength)); expect (s, "payload encoding", fmt ("(val: %d)", m->encoding), true);
      if (det > 1 && x.size ()) { size_t p = all.find ("extra headers:\n"); if (p == bytes::npos) fail ("extra headers are not printed"); same_json (all.substr (p + 15), x, 16); }
      else if (all.find ("extra headers:") != bytes::npos) fail ("extra headers printed");
    }
    if (dump (m) != before) fail ("printing changed the record");
    m->extra = NULL; m->extralength = 0; msr3_free (&m);
  }, "all values of flags, version and encoding, 13 rates, 13 times, counts, lengths, checksums and identifiers at their bounds, all detail levels, with and without extra headers"});

  cfg.scenarios.push_back ({"json", [=] (Ctx &c) {
    int indent = c.one<int> ({0, 3});
    bytes d = "{\"x\":" + jvalue (c, thorough ? 3 : 2) + (c.flip () ? ",\"y:\\\"\":[]}" : "}");
    MS3Record *m = msr3_init (NULL); Buf b (d); m->extra = b.p; m->extralength = d.size ();
    quiet (); int rc = mseh_print (m, indent);
    c.step (); c.nontriv ();
    if (rc || gErr.size ()) fail ("mseh_print of %s returned %d", d.c_str (), rc);
    same_json (gText, d, indent);
    m->extra = NULL; m->extralength = 0; msr3_free (&m);
  }, thorough ? "all JSON documents of a grammar with nesting to depth 4 over 11 leaves incl. strings of structural characters, escaped quotes and backslashes" : "all JSON documents of a grammar with nesting to depth 3 over 11 leaves incl. strings of structural characters, escaped quotes and backslashes"});

  auto header3 = [=] (Ctx &c, int pairs) {
    Rec3 x; x.settime (T0 + 45 * 86400 * NS1 + 3723123456789LL); x.samprate = -12.5; x.flags = 5; x.pubver = 7; x.sid = "FDSN:XX_STA_00_H_H_Z"; x.encoding = 3; x.data = enc_plain (3, {1, 2, 3}, false); x.numsamples = 3;
    if (c.flip ()) x.extra = "{\"a\":[1,\"b,c\"]}";
    bytes r = x.build ();
    for (int k = 0; k < pairs; k++)
    {
      int o = c.pick (40);
      if (pairs > 1) { static const int V[] = {0, 1, 23, 24, 59, 60, 61, 0x7f, 0x80, 0xff}; r[o] = (char)c.of (V); } else r[o] = (char)c.pick (256);
    }
    int det = c.pick (3);
    Buf b (r); quiet ();
    int rc = ms_parse_raw3 (b.p, (int)b.n, det);
    c.step (); c.nontriv (); c.state (Hash ().s (gText).s (gErr.size () ? gErr[0] : ""));
    if (!b.same ()) fail ("printing changed the record");
    auto U = [&] (int o, int n) { return (unsigned)get (r, o, n, 0); };
    int sl = U (33, 1), el = U (34, 2);
    if (sl < 4 || 40 + sl > (int)r.size ()) { if (rc <= 0 || gErr.empty ()) fail ("identifier length %d is not reported", sl); return; }
    int e = r.compare (0, 2, "MS") != 0; e += r[2] != 3; e += U (8, 2) < 1900 || U (8, 2) > 2100; e += U (10, 2) < 1 || U (10, 2) > 366; e += U (12, 1) > 23; e += U (13, 1) > 59; e += U (14, 1) > 60; e += U (4, 4) > 999999999;
    // extra headers that are no JSON object are printed with a warning
    int warn = det > 1 && el && 40 + sl + el <= (int)r.size () && (r[40 + sl] != '{' || r[40 + sl + el - 1] != '}');
    if (rc != e || (int)gErr.size () != e + warn) fail ("%d returned and %zu reported for %d invalid fields", rc, gErr.size (), e);
    if (!det) { if (gLines.size ()) fail ("printed without details"); return; }
    bytes all = gText;
    size_t px = all.find ("extra headers:\n");
    if (px != bytes::npos) while (gLines.size () && gLines.back ().find ("extra headers:\n") == bytes::npos) gLines.pop_back ();
    Section s = sections ()[0];
    if (r[0] && r[1] && r[0] != '\n' && r[1] != '\n') expect (s, "record indicator", "'" + r.substr (0, 2) + "'");
    expect (s, "activity flags", flags8 (U (3, 1))); if (det > 1) expect_bits (s, "activity flags", U (3, 1), 0xff);
    expect (s, "start time", fmt ("%u,%u,%u:%u:%u.%09u", U (8, 2), U (10, 2), U (12, 1), U (13, 1), U (14, 1), U (4, 4)));
    expect (s, "sample rate+/period-", fmt ("%g", bitsd (get (r, 16, 8, 0)))); expect (s, "data encoding", fmt ("%u", U (15, 1))); expect (s, "publication version", fmt ("%u", U (32, 1)));
    expect (s, "number of samples", fmt ("%u", U (24, 4))); expect (s, "CRC", fmt ("0x%X", U (28, 4))); expect (s, "length of identifier", fmt ("%u", sl)); expect (s, "length of extra headers", fmt ("%u", el)); expect (s, "length of data payload", fmt ("%u", U (36, 4)));
    if (det > 1 && sl == 20 && el == (int)x.extra.size () && el) { if (px == bytes::npos) fail ("extra headers are not printed"); same_json (all.substr (px + 15), x.extra, 10); }
  };
  cfg.scenarios.push_back ({"header3", [=] (Ctx &c) { header3 (c, 1); }, "a version 3 record with and without extra headers, every header byte with every value, all detail levels"});
  cfg.scenarios.push_back ({"header3-pairs", [=] (Ctx &c) { header3 (c, 2); }, "every pair of header bytes over 10 boundary values, all detail levels"});

  // every byte of header and blockettes
  auto header2 = [=] (Ctx &c, bool all) {
    bool big = c.flip (); int type = c.of (DEFTYPES); int det = c.pick (3); bool b1000 = type == 1000 || c.flip ();
    Rec2 x = rec2 (type, big, b1000);
    bytes r = x.build ();
    int nb = x.blks.size (); size_t at = 48 + (b1000 && nb > 1 ? 8 : 0), len = type ? x.blks.back ().size () : 0;
    size_t span = 48 + len;
    int o = c.pick ((int)span), i = o < 48 ? o : (int)(at + o - 48);
    static const int V[] = {0, 1, 2, 5, 23, 24, 31, 59, 60, 61, 'A', 0x7f, 0x80, 0xff};
    uint8_t v = all ? c.pick (256) : c.of (V);
    bool text = o >= 48 && type == 500 && o >= 48 + 72 + 8; // the long text of blockette 500: few values suffice
    if (text && v != 0 && v != 'A' && v != 0x80) return;
    r[i] = (char)v;
    bool yd = i >= 20 && i < 24;
    int swap = c.flip () && !yd ? -1 : big;
    int rc = raw2 (r, det, swap);
    c.step (); c.nontriv (); c.state (Hash ().s (gText).s (gErr.size () ? gErr[0] : ""));
    int bo = o - 48; bool chain = i == 39 || (i >= 44 && i < 48) || (bo >= 0 && bo < 4) || (type == 2000 && bo >= 4 && bo < 8) || (type == 1000 && bo == 6);
    bool noroom = false;
    if (!chain)
    {
      int e = bad2 (r, big);
      if (type == 1000) { e += !enc_ok ((uint8_t)r[at + 4]); e += (uint8_t)r[at + 5] > 1; }
      if (rc != e || (int)gErr.size () != e) fail ("%d returned and %zu reported for %d invalid fields (byte %d = %d)%s%s", rc, gErr.size (), e, i, v, gErr.size () ? ": " : "", gErr.size () ? gErr[0].c_str () : "");
    }
    else
    {
      if (i == 39 && nb && rc == 0 && v != nb) fail ("a wrong number of blockettes is not reported");
      // blockettes that do not lead to the given one
      if (i >= 44) return;
    }
    (void)noroom;
    if (!det) return;
    auto s = sections ();
    fields (s[0], r, 0, HEAD2, sizeof HEAD2 / sizeof HEAD2[0], big, det);
    // rate by the published rules
    int f = (int16_t)get (r, 32, 2, big), mu = (int16_t)get (r, 34, 2, big); double hz = f == 0 ? 0 : f > 0 ? f : -1.0 / f; if (f != 0 && mu != 0) hz = mu > 0 ? hz * mu : hz / -mu;
    bool found = false; for (auto &k : s[0].kv) if (k.first == "sample rate factor") { found = true; int pf; double ph; if (sscanf (k.second.c_str (), "%d (%lf samples per second)", &pf, &ph) != 2 || pf != f || fabs (ph - hz) > 1e-9 * fabs (hz)) fail ("sample rate factor printed as '%s', the record has %d, %.10g samples per second", k.second.c_str (), f, hz); }
    if (!found) fail ("the sample rate factor is not printed");
    if ((int)s.size () - 1 != nb) fail ("%zu blockettes printed, the record has %d", s.size () - 1, nb);
    size_t p = 48;
    for (int k = 0; k < nb; k++)
    {
      int t = (int)get (r, p, 2, big);
      if (s[k + 1].name.compare (0, fmt ("%d", t).size (), fmt ("%d", t))) fail ("blockette %d printed as %s", t, s[k + 1].name.c_str ());
      expect (s[k + 1], "next blockette", fmt ("%u", (unsigned)get (r, p + 2, 2, big)));
      auto it = BLKF.find (t); if (it != BLKF.end ()) fields (s[k + 1], r, p, it->second.data (), it->second.size (), big, det);
      p += x.blks[k].size ();
    }
  };
  cfg.scenarios.push_back ({"header2", [=] (Ctx &c) { header2 (c, thorough); }, thorough ? "version 2 records in both byte orders with one blockette of every type, with and without blockette 1000, every byte of the header and the blockette with every value, byte order given and detected, all detail levels" : "version 2 records in both byte orders with one blockette of every type, with and without blockette 1000, every byte of the header and the blockette with 14 boundary values, byte order given and detected, all detail levels"});
  cfg.scenarios.push_back ({"flags2", [=] (Ctx &c) {
    bool big = c.flip (); static const int FT[][2] = {{0, 36}, {0, 37}, {0, 38}, {200, 16}, {201, 16}, {300, 15}, {310, 15}, {320, 15}, {390, 15}, {2000, 13}, {1001, 4}, {1001, 5}, {500, 18}, {1000, 4}, {1000, 5}};
    auto &f = c.of (FT); Rec2 x = rec2 (f[0], big, true); bytes r = x.build (); size_t at = f[0] == 0 ? 0 : f[0] == 1000 ? 48 : 56; r[at + f[1]] = (char)c.pick (256);
    int det = 1 + c.pick (2);
    int rc = raw2 (r, det, -1); int e = f[0] == 1000 ? (f[1] == 4 ? !enc_ok ((uint8_t)r[52]) : (uint8_t)r[53] > 1) : 0;
    c.step (); c.nontriv ();
    if (rc != e) fail ("%d errors reported, %d expected", rc, e);
    auto s = sections (); if ((int)s.size () != (int)x.blks.size () + 1) fail ("blockettes printed");
    fields (s[0], r, 0, HEAD2, sizeof HEAD2 / sizeof HEAD2[0], big, det);
    if (f[0]) { auto &fl = BLKF.at (f[0]); fields (s.back (), r, at, fl.data (), fl.size (), big, det); }
    // conditions listed as "[Bit n] v: meaning" carry the value of the bit
    for (auto &sec : s) for (auto &b : sec.bits) for (auto &l : b.second) { int k, v; if (sscanf (l.c_str (), "[Bit %d] %d:", &k, &v) == 2 && f[0] && v != (((uint8_t)r[at + f[1]]) >> k & 1) && (b.first == "event detection flags" || b.first == "data flags") && (f[1] == 16 || f[1] == 13)) fail ("'%s' for flags %02x", l.c_str (), (uint8_t)r[at + f[1]]); }
  }, "every value of every flag, encoding, byte order, quality and microsecond byte of header and blockettes, both byte orders"});

  cfg.scenarios.push_back ({"chains", [=] (Ctx &c) {
    bool big = c.flip (); int n = c.pick (4); bool b1000 = c.flip ();
    Rec2 x = rec2 (0, big, b1000); x.reclen = 1024; if (b1000) { x.blks.clear (); x.blks.push_back (x.b1000 (3, big, 10)); }
    std::vector<int> ty; for (int k = 0; k < n; k++) { int t = BLKTYPES[c.pick (14)]; if (t == 1000) t = 1001; ty.push_back (t); x.blks.push_back (blk_sample (t, big)); }
    bytes r = x.build (); int det = c.pick (3);
    int rc = raw2 (r, det, c.flip () ? -1 : big);
    c.step (); c.nontriv ();
    if (rc) fail ("%d errors reported for a valid record: %s", rc, gErr[0].c_str ());
    if (det)
    {
      auto s = sections (); size_t k0 = b1000; if (s.size () != 1 + k0 + n) fail ("%zu blockettes printed, the record has %zu", s.size () - 1, k0 + n);
      size_t p = 48 + 8 * k0; for (int k = 0; k < n; k++) { auto &f = BLKF.at (ty[k]); fields (s[1 + k0 + k], r, p, f.data (), f.size (), big, det); p += x.blks[k0 + k].size (); }
    }
    // every way of breaking the chain is reported
    if (n)
    {
      size_t p = 48; for (size_t k = 0; k < x.blks.size (); k++)
      {
        bytes q = r; int how = 0;
        for (how = 0; how < 4; how++)
        {
          q = r; set (q, p + 2, how == 0 ? p : how == 1 ? 48 : how == 2 ? p + 3 : 1500, 2, big);
          if (!raw2 (q, det, big)) fail ("a chain that leads from offset %zu to %u is not reported", p, (unsigned)get (q, p + 2, 2, big));
          c.step ();
        }
        q = r; set (q, p, 999, 2, big); if (!raw2 (q, det, big)) fail ("an unknown blockette is not reported");
        p += x.blks[k].size ();
      }
    }
  }, "all chains of up to 3 blockettes of 14 types in all orders with and without blockette 1000, both byte orders; valid as built, and every next-offset of the chain broken in four ways and every type replaced"});

  // selections
  cfg.scenarios.push_back ({"selections", [=] (Ctx &c) {
    static const char *pats[] = {"FDSN:XX_STA__B_H_Z", "*", "FDSN:[A-C]?_*_00_*", "FDSN:XX_LONGSTATIONNAME_LOCATION_BAND_SOURCE_SUBSOURCE", "X"};
    static const int64_t tm[] = {NSTUNSET, 0, 1, -1, 1577836799999999999LL, 1577836800000000000LL, 1577836800123456000LL, -2208988800000000000LL, NSTERROR, 4102444800000000500LL};
    int n = c.pick (4); MS3Selections *sel = NULL; struct W { bytes p; int v; int64_t a, b; }; std::vector<W> ws; MemCheck mk;
    for (int i = 0; i < n; i++)
    {
      W w; w.p = i && !thorough ? pats[c.pick (3)] : c.of (pats); w.v = i ? 2 * i : c.one<int> ({0, 1, 255}); w.a = tm[i == 1 ? c.pick (3) * 4 : c.pick (10)]; w.b = tm[i == 1 || (i && !thorough) ? 0 : c.pick (10)];
      if (ms3_addselect (&sel, w.p.c_str (), w.a, w.b, (uint8_t)w.v)) continue; // reversed times are refused
      ws.push_back (w);
    }
    quiet (); ms3_printselections (sel); bytes text; for (auto &l : gLines) text += l;
    if (!gErr.empty ()) fail ("printing selections reports '%s'", gErr[0].c_str ());
    auto canon = [] (const bytes &s) { bytes o; for (char ch : s) { bool sp = ch == ' ' || ch == '\t'; if (sp && (o.empty () || o.back () == ' ')) continue; o += sp ? ' ' : ch; } while (!o.empty () && (o.back () == ' ' || o.back () == '\n')) o.pop_back (); return o; };
    auto when = [] (int64_t t, const char *none) -> bytes { if (t == NSTUNSET || t == NSTERROR) return none; Civil v = civil (t); bytes s = fmt ("%04lld-%02d-%02dT%02d:%02d:%02d", (long long)v.year, v.month, v.mday, v.hour, v.min, v.sec); if (v.nsec) s += v.nsec % 1000 ? fmt (".%09u", v.nsec) : fmt (".%06u", v.nsec / 1000); return s + "Z"; };
    std::vector<bytes> got, want, exp; size_t p = 0; while (p < text.size ()) { size_t e = text.find ('\n', p); if (e == bytes::npos) e = text.size (); got.push_back (canon (text.substr (p, e - p))); p = e + 1; }
    // each selection made once under its pattern and version
    size_t i = 0; std::vector<W> left = ws; 
    while (i < got.size ())
    {
      size_t k = 0; while (k < left.size () && got[i] != fmt ("Selection: %s pubversion: %d", left[k].p.c_str (), left[k].v)) k++;
      if (k == left.size ()) fail ("printed '%s', of %zu selections", got[i].c_str (), ws.size ());
      bytes pat = left[k].p; int v = left[k].v; i++; size_t from = i;
      for (; i < got.size () && got[i].compare (0, 10, "Selection:"); i++)
      {
        size_t j = 0; while (j < left.size () && !(left[j].p == pat && left[j].v == v && got[i] == when (left[j].a, "No start time") + " " + when (left[j].b, "No end time"))) j++;
        if (j == left.size ()) fail ("printed '%s' for %s version %d", got[i].c_str (), pat.c_str (), v);
        left.erase (left.begin () + j);
      }
      if (i == from) fail ("no times printed for %s version %d", pat.c_str (), v);
    }
    if (!left.empty ()) fail ("%zu of %zu selections are not printed", left.size (), ws.size ());
    ms3_freeselections (sel); mk.done ("selections"); c.step (); if (!ws.empty ()) c.nontriv (); c.state (Hash ().s (text));
  }, "lists of up to 3 selections of 5 patterns, 3 versions and 10 start and end times: each printed once with its pattern, version and window"});

  cfg.scenarios.push_back ({"result texts", [=] (Ctx &c) {
    int code = c.pick (300) - 150; const char *s = ms_errorstr (code); std::set<bytes> all; bool known = false;
    for (int k : {MS_ENDOFFILE, MS_NOERROR, MS_GENERROR, MS_NOTSEED, MS_WRONGLENGTH, MS_OUTOFRANGE, MS_UNKNOWNFORMAT, MS_STBADCOMPFLAG, MS_INVALIDCRC})
    { const char *t = ms_errorstr (k); if (!t || !*t) fail ("no text for result %d", k); if (!all.insert (t).second) fail ("'%s' is the text of more than one result", t); if (k == code) known = true; }
    if (known != (s != NULL)) fail ("result %d has the text '%s'", code, s ? s : "(none)");
    c.step (); if (known) c.nontriv (); c.state (Hash ().i (code).s (s ? s : ""));
  }, "every result code from -150 to 149"});

  cfg.scenarios.push_back ({"encoding texts", [=] (Ctx &c) {
    int code = c.pick (256); const char *s = ms_encodingstr (code), *unk = ms_encodingstr (6); std::set<bytes> all; bool known = false;
    for (int k : {0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 30, 31, 32, 33})
    { const char *t = ms_encodingstr (k); if (!t || !*t) fail ("no text for encoding %d", k); if (!all.insert (t).second) fail ("'%s' is the text of more than one encoding", t); if (!strcmp (t, unk)) fail ("encoding %d is unknown", k); if (k == code) known = true; }
    if (!s || known != (strcmp (s, unk) != 0)) fail ("encoding %d has the text '%s'", code, s ? s : "(none)");
    static const std::pair<int, const char *> WORD[] = {{0, "ext"}, {1, "16"}, {3, "32"}, {4, "32"}, {5, "64"}, {10, "1"}, {11, "2"}, {19, "3"}};
    for (auto &w : WORD) if (code == w.first && !strstr (s, w.second)) fail ("encoding %d has the text '%s'", code, s);
    c.step (); if (known) c.nontriv (); c.state (Hash ().i (code).s (s));
  }, "every encoding code"});

  // verbosity
  cfg.scenarios.push_back ({"verbosity", [=] (Ctx &c) {
    int f = c.pick (NFORM), op = c.pick (7), n = c.one<int> ({0, 1, 40}); int lev = c.one<int> ({1, 2, 3, 4, 10, 127, -1});
    bytes b = form (f, rec (1, n, 0)) ; b += form (f, rec (2, n, n)); R r0 = rec (1, n, 0);
    Dir d;
    auto go = [&] (int v) -> bytes {
      log_install (); bytes o; Buf in (b); MS3Record *m = NULL; MS3TraceList *l = NULL;
      if (op == 0 || op == 3 || op == 4)
      {
        int rc = msr3_parse (in.p, in.n, &m, op == 0 ? MSF_VALIDATECRC : MSF_UNPACKDATA, v); o = fmt ("%d ", rc); if (m) o += dump (m);
        if (op == 0 && m) { int64_t k = msr3_unpack_data (m, v); o += fmt (" %lld ", (long long)k) + dump (m); char q[4096]; int k2 = msr3_repack_mseed3 (m, q, sizeof q, v); o += fmt ("%d", k2); if (k2 > 0) o += bytes (q, k2); }
        if (op != 0 && m) { Packed p; m->encoding = -1; m->encoding = m->sampletype == 'i' ? 11 : m->sampletype == 'f' ? 4 : 0; p.rc = msr3_pack (m, pack_handler, &p, &p.n, MSF_FLUSHDATA | (op == 4 ? MSF_PACKVER2 : 0), v); o += fmt (" %d %lld ", p.rc, (long long)p.n); for (auto &x : p.recs) o += x; }
      }
      else if (op == 1 || op == 5)
      {
        int64_t rc = mstl3_readbuffer (&l, in.p, in.n, 0, MSF_UNPACKDATA | (op == 5 ? MSF_RECORDLIST : 0), NULL, v); o = fmt ("%lld ", (long long)rc) + dump (l);
        Packed p; p.rc = l ? mstl3_pack (l, pack_handler, &p, 512, DE_INT32, &p.n, MSF_FLUSHDATA, v, NULL) : -9; o += fmt (" %d %lld ", p.rc, (long long)p.n); for (auto &x : p.recs) o += x;
      }
      else if (op == 2)
      {
        spill (d.at ("in"), b + "junk"); MS3FileParam *fp = NULL; int rc; bytes pth = d.at ("in");
        while ((rc = ms3_readmsr_r (&fp, &m, pth.c_str (), MSF_UNPACKDATA | MSF_SKIPNOTDATA, v)) == 0) o += dump (m); o += fmt (" %d", rc); ms3_readmsr_r (&fp, &m, NULL, 0, v);
      }
      else
      {
        mstl3_readbuffer (&l, in.p, in.n, 0, MSF_UNPACKDATA, NULL, v); bytes pth = d.at ("out"); unlink (pth.c_str ());
        if (l) o = fmt ("%lld ", (long long)mstl3_writemseed (l, pth.c_str (), 1, 512, DE_INT32, 0, v)) + slurp (pth);
      }
      if (m) msr3_free (&m);
      if (l) mstl3_free (&l, 0);
      if (!in.same ()) fail ("input changed");
      return o;
    };
    bytes a = go (0), z = go (lev);
    c.step (2); c.nontriv ();
    if (a != z) fail ("results at verbosity %d differ from those at 0: %s / %s", lev, hex (z).c_str (), hex (a).c_str ());
  }, "9 record forms x 7 operations (parse, unpack, repack, pack both formats, trace lists with and without record lists, files) x verbosity levels -1 to 127 compared with 0"});
  return run (argc, argv, cfg);
}
