#include "ref.hpp"
using namespace ref; using mc::Ctx; using mc::fail; using mc::fmt;
static const char *Z (const bytes &s) { return s.c_str (); }
// length of the longest prefix within max bytes made of complete, valid UTF-8 characters (no NUL)
static int utf8len (const bytes &s, int max)
{
  int i = 0, n = std::min ((int)s.size (), std::max (max, 0));
  while (i < n && s[i])
  {
    unsigned char a = s[i]; int k; uint32_t cp;
    if (a < 0x80) { i++; continue; }
    if (a >= 0xc2 && a <= 0xdf) k = 1, cp = a & 31; else if (a >= 0xe0 && a <= 0xef) k = 2, cp = a & 15; else if (a >= 0xf0 && a <= 0xf4) k = 3, cp = a & 7; else break;
    if (i + k >= n) break;
    bool ok = true;
    for (int j = 1; j <= k; j++) { unsigned char b = s[i + j]; if ((b & 0xc0) != 0x80) ok = false; cp = cp << 6 | (b & 63); }
    if (!ok || (k == 2 && cp < 0x800) || (k == 3 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) break;
    i += k + 1;
  }
  return i;
}
int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P15";
  cfg.rule = "identifier = FDSN: codes joined by underscores with three-letter channels spread out; splitting inverts it; anything else is refused; copies compared with a reference that knows the longest prefix of whole UTF-8 characters";
  cfg.assumptions = {"network, station and location codes contain no underscore or colon; channels are three letters or three parts with two underscores"};
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  static const char *net[] = {"", "X", "XX", "_FDSN", "NET1", "LONGNETWORK"}, *sta[] = {"", "S", "STA", "STA01", "STATION8", "A-B"}, *loc[] = {"", "0", "00", "LOCATION", "--"},
                    *chn[] = {"LHZ", "L_H_Z", "BB_HH_ZZ", "L_HH_Z", "_H_Z", "L__Z", "__", "L_H_", "1_2_3", "123", "B_H_00", "ABCDEF_G_H"};
  cfg.scenarios.push_back ({"build-split", [=] (Ctx &c) {
    bytes n = c.of (net), s = c.of (sta), ch = c.of (chn); int li = c.pick (6);
    if (n == "_FDSN") n = "FDSN";
    bytes l = li < 5 ? loc[li] : "";
    bytes x = ch.size () == 3 && ch.find ('_') == bytes::npos ? fmt ("%c_%c_%c", ch[0], ch[1], ch[2]) : ch;
    bytes plain = x.size () == 5 && x[1] == '_' && x[3] == '_' && x[0] != '_' && x[2] != '_' && x[4] != '_' ? fmt ("%c%c%c", x[0], x[2], x[4]) : x;
    bytes want = "FDSN:" + n + "_" + s + "_" + l + "_" + x;
    for (int len = 0; len <= (int)want.size () + 3; len++)
    {
      Buf b (bytes (len, '#'));
      int r = ms_nslc2sid (b.p, len, 0, Z (n), Z (s), li < 5 ? Z (l) : NULL, Z (ch));
      c.step ();
      bool fits = len >= 16 && len >= (int)want.size () + 1;
      if (!fits) { if (r != -1) fail ("building '%s' into %d bytes returns %d", Z (want), len, r); continue; }
      if (r != (int)want.size () || want != b.p) fail ("building from '%s' '%s' '%s' '%s' gives %d '%s', expected '%s'", Z (n), Z (s), Z (l), Z (ch), r, b.p, Z (want));
      for (int i = want.size () + 1; i < len; i++) if (b.p[i] != '#') fail ("building '%s' writes beyond its end", Z (want));
      for (int mask = 0; mask < 16; mask++)
      {
        Buf bn (bytes (n.size () + 1, '#')), bs (bytes (s.size () + 1, '#')), bl (bytes (l.size () + 1, '#')), bc (bytes (std::max (plain.size () + 1, (size_t)4), '#'));
        if (ms_sid2nslc (b.p, mask & 1 ? bn.p : 0, mask & 2 ? bs.p : 0, mask & 4 ? bl.p : 0, mask & 8 ? bc.p : 0)) fail ("splitting '%s' is refused", b.p);
        c.step ();
        if (((mask & 1) && n != bn.p) || ((mask & 2) && s != bs.p) || ((mask & 4) && l != bl.p) || ((mask & 8) && plain != bc.p)) fail ("splitting '%s' gives wrong codes (requested set %d)", b.p, mask);
      }
      bytes ns = "FDSN:AGENCY:" + want.substr (5); char a[99], e[99], i[99], o[99];
      if (ms_sid2nslc (Z (ns), a, e, i, o) || n != a || s != e || l != i || plain != o) fail ("splitting '%s' with a further namespace", Z (ns));
      c.step ();
    }
    c.nontriv (); c.state (mc::Hash ().s (want));
  }, "6 networks x 6 stations x 6 locations (absent too) x 12 channels x every destination size from 0 x every subset of requested codes"});
  int N = th ? 11 : 9;
  cfg.scenarios.push_back ({"structure", [=] (Ctx &c) {
    static const char *pre[] = {"FDSN:", "", "FDSN", "fdsn:", "XFDSN:", "FDS:", "FDSN::"};
    bytes s = c.of (pre);
    int n = c.pick (N + 1);
    bool simple = s != "FDSN:";
    if (simple && n > 6) return;
    for (int i = 0; i < n; i++) s += "A_:"[c.pick (3)];
    bool ok = s.rfind ("FDSN:", 0) == 0;
    bytes id = ok ? s.substr (s.rfind (':') + 1) : "";
    if (ok && std::count (id.begin (), id.end (), '_') != 5) ok = false;
    char a[32], b[32], d[32], e[32]; strcpy (a, "?"); strcpy (b, "?"); strcpy (d, "?"); strcpy (e, "?");
    Buf q (s + bytes (1, 0));
    int r = ms_sid2nslc (q.p, a, b, d, e);
    c.step ();
    if (ok != (r == 0)) fail ("splitting '%s' returns %d, expected %s", Z (s), r, ok ? "success" : "refusal");
    if (ok)
    {
      size_t p1 = id.find ('_'), p2 = id.find ('_', p1 + 1), p3 = id.find ('_', p2 + 1);
      bytes ch = id.substr (p3 + 1);
      if (ch.size () == 5 && ch[1] == '_' && ch[3] == '_' && ch[0] != '_' && ch[2] != '_' && ch[4] != '_') ch = fmt ("%c%c%c", ch[0], ch[2], ch[4]);
      else if (ch.size () == 5 && ch[1] == '_' && ch[3] == '_') ch = e; // more than two delimiters in five characters cannot occur here
      if (id.substr (0, p1) != a || id.substr (p1 + 1, p2 - p1 - 1) != b || id.substr (p2 + 1, p3 - p2 - 1) != d || ch != e) fail ("splitting '%s' gives '%s' '%s' '%s' '%s'", Z (s), a, b, d, e);
      c.nontriv ();
    }
    c.state (mc::Hash ().s (s));
  }, fmt ("every string of up to %d characters from {letter, underscore, colon} after FDSN: (6 after six other prefixes)", N)});
  cfg.scenarios.push_back ({"channels", [=] (Ctx &c) {
    int n = c.pick (8); bytes s; for (int i = 0; i < n; i++) s += "AB_ "[c.pick (4)];
    Buf src (s + bytes (1, 0)), x (bytes (6, '#')), d (bytes (4, '#'));
    int r = ms_seedchan2xchan (x.p, src.p);
    bool w = n == 3 && s.find ('_') == bytes::npos;
    if (s.find ('_') != bytes::npos && n == 3) w = r == 0; // delimiters inside three characters: unspecified
    if (w != (r == 0)) fail ("three-letter channel '%s' conversion returns %d", Z (s), r);
    if (n == 3 && r == 0 && bytes (x.p) != fmt ("%c_%c_%c", s[0], s[1], s[2])) fail ("channel '%s' extends to '%s'", Z (s), x.p);
    bool w2 = n == 5 && s[1] == '_' && s[3] == '_';
    r = ms_xchan2seedchan (d.p, src.p);
    if (w2 != (r == 0) || (w2 && bytes (d.p) != fmt ("%c%c%c", s[0], s[2], s[4]))) fail ("extended channel '%s' reduces to %d '%.4s'", Z (s), r, d.p);
    if (ms_xchan2seedchan (NULL, src.p) != r) fail ("test-only reduction of '%s' differs", Z (s));
    if (w2) { char ip[8]; strcpy (ip, Z (s)); ms_xchan2seedchan (ip, ip); if (strcmp (ip, d.p)) fail ("in-place reduction of '%s' gives '%s'", Z (s), ip); }
    if (n == 3) { char ip[8]; strcpy (ip, Z (s)); }
    c.step (3); c.nontriv (); c.state (mc::Hash ().s (s));
  }, "every string of up to 7 characters from {A, B, underscore, space}"});
  int M = th ? 7 : 6;
  cfg.scenarios.push_back ({"copies", [=] (Ctx &c) {
    static const unsigned char al[] = {'a', ' ', 0xc3, 0xa9, 0xe2, 0x82, 0xf0, 0x9f, 0xff, 0xc0, 0xed, 0};
    int n = c.pick (M + 1); bytes s; for (int i = 0; i < n; i++) s += (char)al[c.pick (sizeof al)];
    for (int len = 0; len <= n; len++)
    {
      // the source has exactly len bytes, or ends in a terminator before
      Buf src (len == n ? s : s.substr (0, len));
      int u = utf8len (s, len);
      bytes body = s.substr (0, u);
      bytes clean; for (char ch : body) if (ch != ' ') clean += ch;
      bytes tail = body; while (tail.size () && tail.back () == ' ') tail.pop_back ();
      bytes open = body; open.resize (len, ' ');
      Buf d1 (bytes (len + 1, '#')), d2 (bytes (len + 1, '#')), d3 (bytes (len, '#'));
      int r1 = ms_strncpclean (d1.p, src.p, len), r2 = ms_strncpcleantail (d2.p, src.p, len), r3 = ms_strncpopen (d3.p, src.p, len);
      if (r1 != (int)clean.size () || clean != d1.p) fail ("clean copy of %s, %d bytes: %d %s", Z (hex (s)), len, r1, Z (hex (d1.p)));
      if (r2 != (int)tail.size () || tail != d2.p) fail ("tail-clean copy of %s, %d bytes: %d %s, expected %s", Z (hex (s)), len, r2, Z (hex (d2.p)), Z (hex (tail)));
      if (r3 != u || open != bytes (d3.p, len)) fail ("open copy of %s, %d bytes: %d %s", Z (hex (s)), len, r3, Z (hex (bytes (d3.p, len))));
      c.step (3);
    }
    // terminated source, larger limits
    Buf src (s + bytes (1, 0));
    int u = utf8len (s, 100); char d[40]; memset (d, '#', sizeof d);
    if (ms_strncpopen (d, src.p, 12) != std::min (u, 12) || memcmp (d, s.data (), u) || d[12] != '#' || (u < 12 && d[u] != ' ')) fail ("open copy of terminated %s", Z (hex (s)));
    if (ms_strncpcleantail (d, src.p, 30) != (int)strlen (d)) fail ("tail-clean copy of terminated %s: wrong count", Z (hex (s)));
    if (ms_strncpclean (d, src.p, 30) != (int)strlen (d) || strchr (d, ' ')) fail ("clean copy of terminated %s", Z (hex (s)));
    char z[4] = "###"; if (ms_strncpclean (z, NULL, 3) || z[0]) fail ("clean copy of nothing"); strcpy (z, "###");
    if (ms_strncpcleantail (z, NULL, 3) || z[0]) fail ("tail-clean copy of nothing"); strcpy (z, "###");
    if (ms_strncpopen (z, NULL, 3) || memcmp (z, "   ", 4)) fail ("open copy of nothing");
    c.step (6); c.nontriv (); c.state (mc::Hash ().s (s));
  }, fmt ("every byte string of up to %d bytes from twelve bytes that form 1- to 4-byte characters, overlong, surrogate and invalid sequences, spaces and terminators, at every length limit", M)});
  cfg.scenarios.push_back ({"utf8-all-pairs", [=] (Ctx &c) {
    int a = c.pick (256);
    for (int b = 0; b < 256; b++) for (int t = 0; t < 5; t++)
    {
      static const char *tails[] = {"", "\x80", "\x80\x80", "\xbf\xbf", "x"};
      bytes s = bytes (1, (char)a) + bytes (1, (char)b) + tails[t];
      Buf src (s), d (bytes (s.size (), '#'));
      int u = utf8len (s, s.size ()), r = ms_strncpopen (d.p, src.p, s.size ());
      if (r != u) fail ("open copy of %s copies %d bytes, expected %d", Z (hex (s)), r, u);
      c.step ();
    }
    c.nontriv (); c.state (mc::Hash ().i (a));
  }, "every pair of leading bytes with five continuations"});
  cfg.scenarios.push_back ({"v2-header-codes", [=] (Ctx &c) {
    static const char *vn[] = {"", "X", "XX", "1A"}, *vs[] = {"", "S", "STA", "ABCDE"}, *vl[] = {"", "0", "00", "AB"}, *vc[] = {"LHZ", "BH1", "XXX"};
    Rec2 q; q.net = c.of (vn); q.sta = c.of (vs); q.loc = c.of (vl); q.chan = c.of (vc); q.reclen = 128; q.big = c.flip ();
    q.blks.push_back (q.b1000 (3, 1, 7)); q.numsamples = 2; q.data = enc_plain (3, {1, 2}, true);
    bytes rec = q.build (); Buf b (rec); MS3Record *m = NULL;
    if (msr3_parse (b.p, b.n, &m, MSF_UNPACKDATA, 0)) fail ("parse");
    bytes want = "FDSN:" + q.net + "_" + q.sta + "_" + q.loc + "_" + fmt ("%c_%c_%c", q.chan[0], q.chan[1], q.chan[2]);
    if (want != m->sid) fail ("codes '%s' '%s' '%s' '%s' parse to '%s'", Z (q.net), Z (q.sta), Z (q.loc), Z (q.chan), m->sid);
    static bytes out; out.clear ();
    m->formatversion = 2; m->reclen = 128;
    if (msr3_pack (m, [] (char *p, int n, void *) { out.append (p, n); }, NULL, NULL, MSF_FLUSHDATA, 0) != 1) fail ("write");
    if (out.substr (8, 12) != rec.substr (8, 12)) fail ("codes of '%s' written as '%s', were '%s'", m->sid, Z (out.substr (8, 12)), Z (rec.substr (8, 12)));
    msr3_free (&m); c.step (2); c.nontriv (); c.state (mc::Hash ().s (want));
  }, "every combination of code lengths in a version 2 header, both byte orders"});
  return mc::run (argc, argv, cfg);
}
