// P01: whatever is packed comes back exactly, in records of the length asked for, with exact times and headers.
#include "ref.hpp"
#include <quadmath.h>
#include <sys/mman.h>
using namespace mc; using namespace ref;

struct Series
{
  bytes sid = "FDSN:XX_TEST__L_H_Z", extra;
  double rate = 1; int64_t start = 1577836800000000000LL; int enc = 3; uint8_t flags = 0, pub = 1; char type = 'i';
  bytes data; // samples in host form
  int ss () const { return type == 't' ? 1 : type == 'd' ? 8 : 4; }
  int64_t n () const { return data.size () / ss (); }
};
static char enc_type (int e) { return e == 0 ? 't' : e == 4 ? 'f' : e == 5 ? 'd' : 'i'; }
static bytes host (char type, const std::vector<double> &v)
{
  bytes b;
  for (double x : v)
    if (type == 't') b += (char)(int)x;
    else if (type == 'i') { int32_t k = (int32_t)x; b.append ((char *)&k, 4); }
    else if (type == 'f') { float k = (float)x; b.append ((char *)&k, 4); }
    else b.append ((char *)&x, 8);
  return b;
}
// independent decoding of a payload into host samples
static bytes decode (int enc, const bytes &d, size_t n, bool big, const char *what)
{
  bytes o;
  if (enc == 10 || enc == 11)
  {
    SteimOut s = steim_decode (d, enc - 9, n, true);
    if (!s.err.empty ()) fail ("%s: payload is not well formed Steim-%d: %s", what, enc - 9, s.err.c_str ());
    for (int32_t x : s.v) o.append ((char *)&x, 4);
    return o;
  }
  int w = enc == 0 ? 1 : enc == 1 ? 2 : enc == 5 ? 8 : 4;
  if (d.size () < n * w) fail ("%s: %zu samples in %zu bytes", what, n, d.size ());
  for (size_t i = 0; i < n; i++)
  {
    uint64_t u = get (d, i * w, w, big);
    if (enc == 0) o += (char)u;
    else if (enc == 1) { int32_t k = (int16_t)u; o.append ((char *)&k, 4); }
    else if (enc == 5) o.append ((char *)&u, 8);
    else { uint32_t k = (uint32_t)u; o.append ((char *)&k, 4); }
  }
  return o;
}
static bool same_rate (double got, double want, bool v2) { return want == got || fabs (got - want) <= fabs (want) * (v2 ? 2e-7 : 4e-16); }
static double hz (double r) { return r < 0 ? -1 / r : r; }

// bytes of a payload that hold its samples; a Steim payload counts to the word with the last sample
static size_t used (int enc, const bytes &d, size_t n, bool big)
{
  if (enc < 10) return std::min (d.size (), n * (enc == 0 ? 1 : enc == 1 ? 2 : enc == 5 ? 8 : 4));
  size_t got = 0;
  for (size_t f = 0; f + 64 <= d.size (); f += 64)
    for (int w = 0; w < 16; w++)
    {
      if (got >= n && w > (f == 0 ? 2 : 0)) return f + w * 4;
      int nib = get (d, f, 4, big) >> (30 - 2 * w) & 3; uint32_t x = get (d, f + w * 4, 4, big); int dn = x >> 30;
      if (w) got += nib == 0 ? 0 : nib == 1 ? 4 : enc == 10 ? (nib == 2 ? 2 : 1) : nib == 2 ? (dn == 0 ? 0 : dn) : dn == 0 ? 5 : dn == 1 ? 6 : dn == 2 ? 7 : 0;
    }
  return d.size ();
}
struct Fill { MS3Record *m; Fill () : m (msr3_init (NULL)) {} ~Fill () { m->datasamples = NULL; m->extra = NULL; m->extralength = 0; msr3_free (&m); } };

// may_refuse: the samples cannot all be represented, an error is acceptable (what was emitted must still be right)
static void check (Ctx &c, const Series &s, int version, int reclen, bool flush, bool may_refuse = false, bool viaflag = true)
{
  MemCheck mck;
  {
    Fill f; MS3Record *m = f.m;
    Buf data (s.data);
    strcpy (m->sid, s.sid.c_str ()); m->samprate = s.rate; m->starttime = s.start; m->encoding = s.enc; m->flags = s.flags; m->pubversion = s.pub; m->reclen = reclen;
    m->formatversion = !viaflag && version == 2 ? 2 : 3;
    m->datasamples = data.p; m->numsamples = m->samplecnt = s.n (); m->datasize = s.data.size (); m->sampletype = s.type;
    m->extra = s.extra.empty () ? NULL : (char *)s.extra.c_str (); m->extralength = s.extra.size ();
    bytes before ((char *)m, sizeof *m);
    Packed p = pack_all (m, (flush ? MSF_FLUSHDATA : 0) | (version == 2 && viaflag ? MSF_PACKVER2 : 0));
    c.step ();
    bytes what = fmt ("v%d enc %d reclen %d, %lld samples%s, rate %.9g, start %lld", version, s.enc, reclen, (long long)s.n (), flush ? " flushed" : "", s.rate, (long long)s.start);
    if (bytes ((char *)m, sizeof *m) != before || !data.same ()) fail ("%s: the series was changed by packing", what.c_str ());
    if (p.rc < 0 && !may_refuse) fail ("%s: packing failed (%s)", what.c_str (), log ().last.c_str ());
    if (p.rc >= 0 && p.rc != (int)p.recs.size ()) fail ("%s: %d records reported, %zu emitted", what.c_str (), p.rc, p.recs.size ());
    int rl = reclen < 0 ? MS_PACK_DEFAULT_RECLEN : reclen, enc = s.enc < 0 ? MS_PACK_DEFAULT_ENCODING : s.enc;
    int64_t total = 0; size_t room = 0;
    for (size_t i = 0; i < p.recs.size (); i++)
    {
      const bytes &r = p.recs[i];
      bytes w = what + fmt (", record %zu", i);
      if ((int)r.size () > rl) fail ("%s: %zu bytes", w.c_str (), r.size ());
      bytes payload; size_t n; int renc; bool big;
      if (version == 3)
      {
        Rec3 q; bytes e = q.parse (r);
        if (!e.empty ()) fail ("%s: %s", w.c_str (), e.c_str ());
        payload = q.data; n = q.numsamples; renc = q.encoding; big = false;
        if (q.sid != s.sid || q.extra != s.extra || q.pubver != s.pub || q.flags != s.flags) fail ("%s: identifier, extra headers, version or flags differ in the record", w.c_str ());
        if (!same_rate (hz (q.samprate), hz (s.rate), false)) fail ("%s: rate field %.17g", w.c_str (), q.samprate);
        room = rl - 40 - q.sid.size () - q.extra.size ();
      }
      else
      {
        if ((int)r.size () != rl) fail ("%s: %zu bytes", w.c_str (), r.size ());
        if (r.size () < 64 || get (r, 48, 2, true) != 1000 || (1 << get (r, 54, 1, true)) != rl || get (r, 53, 1, true) != 1) fail ("%s: blockette 1000 does not state the record", w.c_str ());
        size_t off = get (r, 44, 2, true);
        n = get (r, 30, 2, true); renc = get (r, 52, 1, true); big = true;
        if (n && (off < 56 || off >= r.size ())) fail ("%s: data offset %zu", w.c_str (), off);
        payload = n ? r.substr (off) : ""; room = rl - off;
        if (r.compare (0, 8, "000000D ") && r.compare (0, 6, "000000")) fail ("%s: header %s", w.c_str (), hex (r.substr (0, 8)).c_str ());
      }
      if (s.n () ? renc != enc : renc != 0) fail ("%s: encoding field %d", w.c_str (), renc);
      if (n == 0 && s.n ()) fail ("%s: record without samples", w.c_str ());
      if (version == 2 && r.find_first_not_of ('\0', used (renc, payload, n, big) + r.size () - payload.size ()) != bytes::npos) fail ("%s: bytes after the %zu samples are not zero", w.c_str (), n);
      if (decode (renc, payload, n, big, w.c_str ()) != s.data.substr (total * s.ss (), n * s.ss ())) fail ("%s: %zu samples at %lld differ from the series", w.c_str (), n, (long long)total);
      // through the library
      Buf in (r); MS3Record *g = NULL;
      int rv = msr3_parse (in.p, in.n, &g, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
      c.step ();
      if (rv) fail ("%s: parsing returned %d", w.c_str (), rv);
      if (g->reclen != (int)r.size () || g->formatversion != version) fail ("%s: parsed length %d, version %d", w.c_str (), g->reclen, g->formatversion);
      if (s.sid != g->sid) fail ("%s: identifier %s", w.c_str (), g->sid);
      if (!same_rate (hz (g->samprate), hz (s.rate), version == 2)) fail ("%s: rate %.17g", w.c_str (), g->samprate);
      if (g->pubversion != s.pub || g->flags != s.flags) fail ("%s: version %d flags %02x", w.c_str (), g->pubversion, g->flags);
      if (version == 3 && (g->extralength != (int)s.extra.size () || (g->extralength && s.extra != g->extra))) fail ("%s: extra headers %s", w.c_str (), g->extra);
      if (g->numsamples != (int64_t)n || g->samplecnt != (int64_t)n || (n && (g->sampletype != s.type || memcmp (g->datasamples, s.data.data () + total * s.ss (), n * s.ss ())))) fail ("%s: samples read back differ", w.c_str ());
      __float128 exact = s.start + (s.rate == 0 || !total ? 0 : s.rate > 0 ? (__float128)total / s.rate * 1e9 : (__float128)total * -s.rate * 1e9);
      double err = (double)((__float128)g->starttime - exact), tol = 0.51 + fabs ((double)(exact - s.start)) * 4.5e-16;
      if (version == 2 ? err > tol || err <= -1000 - tol : fabs (err) > tol) fail ("%s: start time %lld is %.1f ns off", w.c_str (), (long long)g->starttime, err);
      if (version == 3 && !total && g->starttime != s.start) fail ("%s: start time %lld", w.c_str (), (long long)g->starttime);
      msr3_free (&g);
      total += n;
    }
    if (p.n != total && (p.rc >= 0 || !p.recs.empty ())) fail ("%s: %lld packed samples reported, %lld found", what.c_str (), (long long)p.n, (long long)total);
    if (p.rc >= 0)
    {
      if (flush && total != s.n ()) fail ("%s: %lld of %lld samples emitted", what.c_str (), (long long)total, (long long)s.n ());
      if (s.n () && !flush)
      {
        if (!p.recs.size ()) room = version == 3 ? rl - 40 - s.sid.size () - s.extra.size () : rl - (enc >= 10 ? 64 : 56);
        int64_t fit = enc == 10 ? room / 64 * 60 : enc == 11 ? room / 64 * 105 : room / (enc == 0 ? 1 : enc == 1 ? 2 : enc == 5 ? 8 : 4);
        if (s.n () - total > fit) fail ("%s: %lld samples withheld, at most %lld fit a record", what.c_str (), (long long)(s.n () - total), (long long)fit);
      }
      if (!s.n () && p.recs.size () != 1) fail ("%s: %zu records for a header only", what.c_str (), p.recs.size ());
      if (p.recs.size () > 1) c.nontriv ();
    }
    c.state (Hash ().i (p.rc).i (total).s (p.recs.empty () ? "" : p.recs.back ()));
  }
  mck.done ("packing");
}

static const int ENC[] = {0, 1, 3, 4, 5, 10, 11};
static std::vector<double> pattern (int k, int enc, int n)
{
  std::vector<double> v; uint32_t x = 12345;
  static const int SZ[] = {0, 1, 7, 15, 31, 127, 511, 16383, 1 << 28};
  for (int i = 0; i < n; i++)
  {
    double y;
    if (k < 9) y = i & 1 ? SZ[k] : 0; // differences of one width
    else if (k == 9) y = (i / 7 % 2 ? 1000 : 3) * (i & 1); // mixed widths
    else { x = x * 1103515245 + 12345; static const int W[] = {3, 20, 120, 500, 10000, 100000}; y = (int)(x >> 8) % W[i / 11 % 6]; } // all widths in turn
    if (enc == 0) y = ((int)y & 0x7f); else if (enc == 1) y = fmod (y, 32768);
    v.push_back (y);
  }
  return v;
}

int main (int argc, char **argv)
{
  setup ();
  Config cfg;
  cfg.property = "P01";
  cfg.rule = "an execution packs one series and reads every emitted record back twice, with an independent decoder and with the library; transitions are packing and parsing calls; non-trivial: more than one record was emitted";
  cfg.assumptions = {"version 2 holds sample rates as factor and multiplier or as a 32-bit float: rates agree to 2e-7", "version 2 start times agree to the microsecond below",
                     "the best compression of a Steim frame is 60 (Steim-1) or 105 (Steim-2) samples", "16-bit encoding is offered only values that fit"};
  const char *t = getenv ("VERIF_TIER"); bool deep = t && !strcmp (t, "thorough");

  cfg.scenarios.push_back ({"sample values", [=] (Ctx &c) {
    int enc = c.of (ENC), version = 2 + c.flip (); bool flush = true;
    Series s; s.enc = enc; s.type = enc_type (enc);
    static const std::vector<double> A[7] = {{0, 65, 255, 10, 127}, {-32768, -1, 0, 1, 32767}, {-2147483648.0, -1, 0, 1, 2147483647}, {0, -0.0, 1.5, FLT_MAX, FLT_MIN / 4, NAN, -INFINITY}, {0, -0.0, 1.5, DBL_MAX, DBL_MIN / 4, NAN, INFINITY}, {-2147483648.0, -1, 0, 1, 127, 2147483647}, {0, 1, -8, 127, -512, 16383, 536870911, -536870912}};
    const auto &al = A[std::find (ENC, ENC + 7, enc) - ENC];
    int n = c.pick (deep ? 6 : 5);
    std::vector<double> v; for (int i = 0; i < n; i++) v.push_back (c.of (al));
    s.data = host (s.type, v);
    bool big = false; for (int i = 1; i < n; i++) { double d = v[i] - v[i - 1]; if (enc == 11 && (d > 536870911 || d < -536870912)) big = true; if (enc == 10 && fabs (d) > 2147483647.0) big = true; }
    check (c, s, version, version == 2 ? 128 : 200, flush, big);
  }, "all sample sequences up to length 4 (thorough 5) over 5-8 boundary values for each of the 7 writable encodings, both versions"});
  cfg.scenarios.push_back ({"capacities", [=] (Ctx &c) {
    int enc = c.of (ENC), version = 2 + c.flip (); bool flush = c.flip (); int pat = c.pick (enc >= 10 ? 11 : 2);
    static const int L2[] = {128, 256, 512}; static const int L3[] = {72, 100, 123, 124, 187, 188, 251, 300, 512};
    int reclen = version == 2 ? c.of (L2) : c.of (L3);
    Series s; s.enc = enc; s.type = enc_type (enc); if (enc < 10) pat = pat ? 10 : 9;
    int room = reclen - 59 - (version == 2 ? 5 : 0), best = enc == 10 ? room / 64 * 60 : enc == 11 ? room / 64 * 105 : room / (enc == 0 ? 1 : enc == 1 ? 2 : enc == 5 ? 8 : 4);
    if (enc >= 10 && room < 64) { // no frame fits
      s.data = host ('i', pattern (pat, enc, 5)); check (c, s, version, reclen, flush, true); return; }
    int max = deep ? 3 * best + 9 : 2 * best + 9;
    std::vector<double> v = pattern (pat, enc, max);
    for (int n = 0; n <= max; n += reclen > 300 && !deep && n % best > 12 && n % best < best - 12 ? 7 : 1)
    {
      s.data = host (s.type, std::vector<double> (v.begin (), v.begin () + n));
      check (c, s, version, reclen, flush);
    }
  }, "every number of samples up to more than two (thorough three) full records, 9-12 record lengths incl. those around frame boundaries, 11 compressibility patterns, flushed and not, all encodings and versions"});
  cfg.scenarios.push_back ({"headers", [=] (Ctx &c) {
    static const double R[] = {1, 100, 20, 0.1, -10, -3, 3, 7, 0.01234, 249.9999, 40000, 1e6, 99.99, -86400, 0.33333, 123.456789, -0.5, -12345.678, 32767, 1e-5, -0.00032};
    static const char *SID[] = {"FDSN:XX_TEST__L_H_Z", "FDSN:N_S_00_B_H_1", "FDSN:ZZ_ABCDE_10_H_N_2", "FDSN:XX_A_ZZ_V_M_X"};
    static const char *X[] = {"", "{\"FDSN\":{\"Time\":{\"Quality\":100}}}", "{\"FDSN\":{\"Event\":{\"Begin\":true}},\"Op\":{\"x\":[1,2,\"\\u00e9\"]}}"};
    static const int64_t FR[] = {0, 1, 999, 1000, 99999, 100000, 123456789, 999999000, 999999999};
    static const int64_t DAY[] = {1577836800, 1582934399, 0, -1, -86400 * 365LL * 60, 4102444799LL, 951782399, 1704067199};
    Series s; int version = 2 + c.flip ();
    s.rate = c.of (R); s.sid = c.of (std::vector<const char *>{SID[0], SID[1], SID[2], SID[3]}); s.extra = X[c.pick (3)]; s.start = DAY[c.pick (8)] * 1000000000LL;
    int enc = c.of (std::vector<int>{3, 11, 0}); s.enc = enc; s.type = enc_type (enc);
    s.data = host (s.type, pattern (10, enc, enc == 11 ? 400 : enc == 0 ? 450 : 120));
    int reclen = version == 2 ? 256 : 59 + 64 + (int)s.extra.size () + 10;
    int64_t st = s.start;
    for (int64_t fr : FR)
    {
      s.start = st + fr;
      for (int k = 0; k < 4; k++)
      {
        s.flags = version == 2 ? k * 2 % 8 + (k == 3) : k == 0 ? 0 : k == 1 ? 255 : 1 << (k + 3);
        s.pub = version == 2 ? 1 + k : k * 85;
        check (c, s, version, reclen, true, false, k & 1);
      }
    }
  }, "21 rates and periods x 8 days incl. leap days, epoch and negative times x 9 sub-second fractions x flags and versions x 4 identifiers x 3 extra headers x 3 encodings, several records each"});
  cfg.scenarios.push_back ({"flags and publication versions", [=] (Ctx &c) {
    int version = 2 + c.flip (), f = c.pick (version == 2 ? 8 : 256);
    for (int pub = version == 2 ? 1 : 0; pub < (version == 2 ? 5 : 256); pub += deep || version == 2 || pub < 8 || pub > 247 ? 1 : 16)
    {
      Series s; s.flags = f; s.pub = pub; s.data = host ('i', {1, 2, 3});
      check (c, s, version, 128, true);
      s.data = ""; check (c, s, version, 128, pub & 1);
    }
  }, "every flags value with publication versions (thorough: every pair), with samples and header only"});
  cfg.scenarios.push_back ({"record lengths", [=] (Ctx &c) {
    int version = 2 + c.flip (), enc = c.of (ENC);
    int k = c.pick (40);
    static const int L[] = {-1, 40, 63, 64, 100, 127, 128, 129, 192, 255, 256, 257, 512, 1000, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1048576};
    int reclen = k < 23 ? L[k] : 59 + (k - 23);
    Series s; s.enc = enc; s.type = enc_type (enc);
    bool valid = version == 2 ? reclen == -1 || (reclen >= 128 && reclen <= 131072 && !(reclen & (reclen - 1))) : true;
    if (reclen > 131072 && !deep) return;
    int rl = reclen == -1 ? 4096 : reclen, room = rl - 59 - (version == 2 ? 5 : 0);
    int unit = enc >= 10 ? 64 : enc == 0 ? 1 : enc == 1 ? 2 : enc == 5 ? 8 : 4;
    if (room < unit) valid = false;
    int per = enc == 10 ? std::max (room, 0) / 64 * 60 : enc == 11 ? std::max (room, 0) / 64 * 105 : std::max (room, 0) / unit;
    bool refuse = !valid || (version == 2 && per > 65535);
    for (int n : {1, per - 1, per, per + 1, 2 * per + 1, 65535, 65536, 65537})
    {
      if (n >= 65535 && per < 65535) continue;
      if (n < 1) continue;
      for (int flush = 0; flush < 2; flush++)
      {
        s.data = host (s.type, pattern (enc >= 10 ? 0 : 9, enc, n));
        if (!valid)
        { // must be refused without emitting anything
          MemCheck mk;
          { Fill f; strcpy (f.m->sid, s.sid.c_str ()); f.m->samprate = 1; f.m->encoding = enc; f.m->reclen = reclen; f.m->starttime = 0; f.m->datasamples = (void *)s.data.data (); f.m->numsamples = s.n (); f.m->sampletype = s.type;
            Packed p = pack_all (f.m, (version == 2 ? MSF_PACKVER2 : 0) | MSF_FLUSHDATA); c.step ();
            if (p.rc >= 0 || !p.recs.empty ()) fail ("v%d reclen %d enc %d: %d records from a length that cannot be written", version, reclen, enc, p.rc);
            if (p.rc < 0) c.state (Hash ().i (reclen).i (enc)); }
          mk.done ("refused packing");
        }
        else check (c, s, version, reclen, flush, refuse);
      }
    }
  }, "record lengths default, every boundary of version 2 lengths, 17 lengths around the smallest possible, up to 1 MiB (thorough), with sample counts around one record"});
  cfg.scenarios.push_back ({"sample types", [=] (Ctx &c) {
    int enc = c.pick (40) - 1; char ty = "tifdax"[c.pick (6)]; int version = 2 + c.flip ();
    MemCheck mk;
    {
      Fill f; strcpy (f.m->sid, "FDSN:XX_TEST__L_H_Z"); f.m->samprate = 1; f.m->encoding = enc; f.m->reclen = 256; f.m->starttime = 0; double d[4] = {0};
      f.m->datasamples = d; f.m->numsamples = 2; f.m->sampletype = ty;
      Packed p = pack_all (f.m, (version == 2 ? MSF_PACKVER2 : 0) | MSF_FLUSHDATA); c.step ();
      int e = enc < 0 ? DE_STEIM2 : enc; bool known = std::find (ENC, ENC + 7, e) != ENC + 7;
      char want = known ? enc_type (e) : 0;
      bool ok = known && (ty == want || (want == 't' && ty == 'a'));
      if (ok != (p.rc == 1) || (!ok && !p.recs.empty ())) fail ("encoding %d with sample type %c: returned %d, %zu records", enc, ty, p.rc, p.recs.size ());
      c.state (Hash ().i (p.rc).i (enc));
    }
    mk.done ("packing");
  }, "every encoding value x every sample type: matching ones are packed, others refused with nothing emitted"});
  if (deep)
    cfg.scenarios.push_back ({"very many samples", [=] (Ctx &c) {
      int64_t n = c.of (std::vector<int64_t>{(1LL << 31) - 1, (1LL << 31) + 5, (1LL << 32), (1LL << 32) + 7});
      char *p = (char *)mmap (NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      Fill f; strcpy (f.m->sid, "FDSN:XX_TEST__L_H_Z"); f.m->samprate = 1; f.m->encoding = 0; f.m->reclen = MAXRECLEN; f.m->starttime = 0; f.m->datasamples = p; f.m->numsamples = n; f.m->sampletype = 't';
      struct S { int64_t n = 0, recs = 0, shorts = 0; } st; int64_t pk = 0;
      int rc = msr3_pack (f.m, [] (char *r, int l, void *h) { S *s = (S *)h; s->n += (uint32_t)get (bytes (r, 40), 24, 4, false); s->recs++; if (l != MAXRECLEN) s->shorts++; }, &st, &pk, MSF_FLUSHDATA, 0);
      c.step ();
      munmap (p, n);
      if (rc != st.recs || pk != n || st.n != n || st.shorts > 1) fail ("%lld samples: %d records, %lld reported, %lld found, %lld short records", (long long)n, rc, (long long)pk, (long long)st.n, (long long)st.shorts);
      c.nontriv (); c.state (Hash ().i (n));
    }, "numbers of samples around 2^31 and 2^32"});
  return run (argc, argv, cfg);
}
