// P22: the records the program selects, writes, prints and counts, for every input form and failing output.
#include "prog.hpp"
#include "globref.hpp"
using namespace prog; using namespace world;
static bytes J (const std::vector<Rc> &v) { bytes b; for (auto &r : v) b += r.raw; return b; }
static std::vector<Rc> mixed ()
{
  return {
    make (I32, "XX", "STA", "00", "HHZ", 1, 10, T0),
    make (ST1, "XX", "STA", "00", "HHN", 2, 1, T0 + 5 * NS1, 1, 2),
    make (V2BE, "YY", "STA", "00", "HHZ", 3, 100, T0, 1, 2),
    make (V2LE, "XX", "STA", "10", "LHZ", 4, 11, T0 + 9 * NS1, -2, 3),
    make (HDR, "XX", "STA", "00", "HHZ", 5, 0, T0 + 20 * NS1),
    make (FLT, "XX", "ABC", "", "BHZ", 6, 41, T0 - 30 * NS1, 1, 4, "{\"FDSN\":{\"Time\":{\"Quality\":100}}}"),
    make (TXT, "XX", "LOG", "", "LOG", 7, 300, T0 + 40 * NS1, 1),
    make (DBL, "Z-", "S*A", "0?", "B[Z", 8, 4, T0 + 9 * NS1 + 1, 3, 255),
    make (V2ST, "XX", "STA", "00", "HHZ", 9, 60, T0 + 10 * NS1, 20, 4),
  };
}
struct Filter
{
  bool ts = false, te = false; nstime_t vs = 0, ve = 0; const char *m = NULL, *r = NULL; int count = -1;
  bool judged = true; std::vector<Tok> tm, tr;
  void match (const char *p) { m = p; if (p && tokens ("*" + bytes (p) + "*", tm)) judged = false; }
  void reject (const char *p) { r = p; if (p && tokens ("*" + bytes (p) + "*", tr)) judged = false; }
  bool keep (const Rc &x) const
  {
    if (ts && !(x.st >= vs || x.en >= vs)) return false;
    if (te && !(x.en <= ve || x.st <= ve)) return false;
    if (m && !tokmatch (tm, x.sid)) return false;
    if (r && tokmatch (tr, x.sid)) return false;
    return true;
  }
  std::vector<Rc> select (const std::vector<Rc> &v) const { std::vector<Rc> o; for (auto &x : v) if ((count < 0 || (int)o.size () < count) && keep (x)) o.push_back (x); return o; }
  std::vector<bytes> args (int tform = 0) const
  {
    std::vector<bytes> a; auto T = [&] (nstime_t t) { return tform == 0 ? isotime (t) : tform == 1 ? ordtime (t) : tform == 2 ? epochtime (t) : isotime (t, 9, ' ', ""); };
    if (ts) { a.push_back ("-ts"); a.push_back (T (vs)); }
    if (te) { a.push_back ("-te"); a.push_back (T (ve)); }
    if (m) { a.push_back ("-m"); a.push_back (m); }
    if (r) { a.push_back ("-r"); a.push_back (r); }
    if (count >= 0) { a.push_back ("-n"); a.push_back (fmt ("%d", count)); }
    return a;
  }
};
static bytes totals (const std::vector<Rc> &v, int files) { int64_t n = 0; for (auto &r : v) n += r.n; return fmt ("Files: %d, Records: %zu, Samples: %lld\n", files, v.size (), (long long)n); }
static bytes lines (const std::vector<Rc> &v) { bytes b; for (auto &r : v) b += line (r); return b; }
static void add (std::vector<bytes> &a, const std::vector<bytes> &b) { a.insert (a.end (), b.begin (), b.end ()); }
static bytes shown (const bytes &b) { return b.size () < 400 ? jesc (b) : jesc (b.substr (0, 400)) + fmt ("... (%zu bytes)", b.size ()); }
static bytes which (const bytes &got, const std::vector<Rc> &all) { bytes s; size_t o = 0; while (o < got.size ()) { size_t k = 0; for (; k < all.size (); k++) if (got.compare (o, all[k].raw.size (), all[k].raw) == 0) break; if (k == all.size ()) { s += fmt (" %zu other bytes", got.size () - o); break; } s += fmt (" #%zu", k); o += all[k].raw.size (); } return s; }
// run with every kept record written to a file; compare the file, the printed lines and the totals
static void judge (Ctx &c, Dir &d, const Filter &f, const std::vector<Rc> &all, const std::vector<bytes> &inputs, int nfiles, Spec s = {}, int tform = 0)
{
  if (!f.judged) return;
  bytes o = d.at ("out"); unlink (o.c_str ());
  std::vector<Rc> want = f.select (all);
  s.args = f.args (tform); add (s.args, {"-s", "-o", o}); add (s.args, inputs);
  Out r = run (s); c.step ();
  if (r.status) fail ("%s exits with %d: %s", s.line ().c_str (), r.status, r.err.c_str ());
  bytes got = slurp (o);
  if (got != J (want)) fail ("%s: output file holds%s instead of%s", s.line ().c_str (), which (got, all).c_str (), which (J (want), all).c_str ());
  bytes text = lines (want), tot = totals (want, nfiles);
  if (f.count >= 0 && nfiles > 1 && r.out.size () > text.size ()) { size_t a = r.out.find ("Files: "), b = r.out.find (','); if (a == text.size ()) { tot = totals (want, atoi (r.out.c_str () + a + 7)); } }
  if (r.out != text + tot) fail ("%s: prints %s instead of %s", s.line ().c_str (), shown (r.out).c_str (), shown (text + tot).c_str ());
  if (!want.empty () && want.size () < all.size ()) c.nontriv ();
  c.state (Hash ().s (got).s (r.out));
}

// the same file by a name of a given length
static bytes longer (const bytes &name, size_t len) { size_t k = name.rfind ('/'); bytes r = name.substr (0, k + 1), base = name.substr (k + 1); while (r.size () + base.size () + 1 < len) r += "./"; if (r.size () + base.size () < len) r += "/"; return r + base; }

int main (int argc, char **argv)
{
  // no setup (): the program logs and allocates as it is
  bool th = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P22";
  cfg.rule = "every combination of the stated option arguments, record sequences, input forms and failing positions";
  cfg.assumptions = {"main() of the program runs in a forked child of the check, compiled from the repository's sources with another name; the linked program is executed for a subset", "the number of files reported when a record count ends the run early is not judged", "incomplete records at the end of an input are not judged to be errors"};

  static std::vector<nstime_t> grid;
  { std::set<nstime_t> g; for (auto &r : mixed ()) for (int d : {-1, 0, 1}) { g.insert (r.st + d); g.insert (r.en + d); } grid.assign (g.begin (), g.end ()); }

  cfg.scenarios.push_back ({"times", [=] (Ctx &c) {
    static std::vector<Rc> all = mixed (); Filter f;
    int a = c.pick ((int)grid.size () + 1), b = c.pick ((int)grid.size () + 1), tf = th ? c.pick (4) : (a + b) % 4;
    if (a) { f.ts = true; f.vs = grid[a - 1]; } if (b) { f.te = true; f.ve = grid[b - 1]; }
    Dir d; bytes in = d.at ("in"); spill (in, J (all)); judge (c, d, f, all, {in}, 1, {}, tf);
  }, fmt ("start x end limits at the first and last sample of each of 9 records of all forms and one nanosecond around them, and absent (%zu values each)%s", grid.size () + 1, th ? " x 4 time notations" : "")});

  static const char *pats[] = {NULL, "", "HH", "H_H", "STA", "XX_STA_00_H_H_Z", "FDSN:", "FDSN:XX_STA_00_H_H_Z", "Z", "_Z", "*", "?", "XX*Z", "X?_", "X?_*_L", "[XY]Y", "[^X]X", "_[A-M]_", "_[^A-M]_", "H_[NZ]", "__", "00_H_H_?", "zz", "STA_10", "\\*", "\\?", "\\[", "S\\*A", "Z-", "[-]", "_LOG__L_O_G", "Y_S", "fdsn", "H_H_Z*Z", "???????????????????", "*_*_*_*_*_*", "*_*_*_*_*_*_*", "[A-Z]B", "0[0?]", "Z_"};
  static const int NP = sizeof pats / sizeof *pats;
  cfg.scenarios.push_back ({"patterns", [=] (Ctx &c) {
    static std::vector<Rc> all = mixed (); Filter f; f.match (pats[c.pick (NP)]); f.reject (pats[c.pick (NP)]);
    Dir d; bytes in = d.at ("in"); spill (in, J (all)); judge (c, d, f, all, {in}, 1);
  }, fmt ("match x reject patterns, %d each, on 9 identifiers", NP)});

  cfg.scenarios.push_back ({"pattern-language", [=] (Ctx &c) {
    static const char *el[] = {"X", "H", "_", "*", "?", "[HX]", "[^H]", "[A-H]", "[-Z]", "[]Z]", "\\*", "Z"};
    static std::vector<Rc> all = mixed (); Filter f; bytes p; int n = 1 + c.pick (th ? 4 : 3); for (int i = 0; i < n; i++) p += el[c.pick (12)];
    bool rej = c.flip (); if (rej) f.reject (p.c_str ()); else f.match (p.c_str ());
    Dir d; bytes in = d.at ("in"); spill (in, J (all)); judge (c, d, f, all, {in}, 1);
  }, fmt ("sequences of up to %d of 12 pattern elements to match or reject", th ? 4 : 3)});

  cfg.scenarios.push_back ({"combined", [=] (Ctx &c) {
    static const char *mp[] = {NULL, "H_H", "XX", "[^Y]_S"}, *rp[] = {NULL, "N", "STA_00", "_L_"}; static std::vector<Rc> all = mixed ();
    nstime_t t[] = {0, T0, T0 + 9 * NS1, T0 + 9 * NS1 + 1, T0 + 10 * NS1, T0 + 29 * NS1};
    Filter f; int a = c.pick (6), b = c.pick (6); if (a) { f.ts = true; f.vs = t[a]; } if (b) { f.te = true; f.ve = t[b]; }
    f.match (mp[c.pick (4)]); f.reject (rp[c.pick (4)]); f.count = (int)c.pick ((int)all.size () + 3) - 1;
    Dir d; bytes in = d.at ("in"); spill (in, J (all)); judge (c, d, f, all, {in}, 1);
  }, "6 start x 6 end limits x 4 match x 4 reject patterns x every record count from none to one beyond all"});

  // ---- input forms
  enum { WHOLE, STDIN, PIPE, RANGE, RANGES, FILES, LIST, LISTRANGE, LISTS, MIXTURE, NFORMS };
  cfg.scenarios.push_back ({"forms", [=] (Ctx &c) {
    static std::vector<Rc> kinds = mixed (); int n = 1 + c.pick (th ? 4 : 3); std::vector<Rc> all; std::vector<int> pick; for (int i = 0; i < n; i++) { pick.push_back (c.pick (th && n < 4 ? 9 : 5)); all.push_back (kinds[(pick[i] * 2) % 9]); }
    Filter f; int flt = c.pick (4); if (flt == 1) f.match ("XX"); if (flt == 2) f.count = 2; if (flt == 3) { f.ts = true; f.vs = T0 + 10 * NS1; }
    Dir d; std::vector<bytes> in; int files = 1; Spec s; bytes whole = d.at ("whole"); spill (whole, J (all));
    std::vector<size_t> off{0}; for (auto &r : all) off.push_back (off.back () + r.raw.size ());
    std::vector<bytes> names; for (int i = 0; i < n; i++) { names.push_back (d.at (fmt ("f%d", i).c_str ())); spill (names[i], all[i].raw); }
    auto range = [&] (int a, int b) { return whole + fmt (b == n ? "@%zu" : "@%zu-%zu", off[a], b == n ? 0 : off[b] - 1); };
    switch (c.pick (NFORMS))
    {
    case WHOLE: in = {whole}; break;
    case STDIN: in = {"-"}; s.in = J (all); break;
    case PIPE: in = {"-"}; s.in = J (all); s.pipe_in = true; s.chunk = c.one<size_t> ({0, 1, 40, 63, 64, 200}); if (s.chunk == 1 && s.in.size () > 2000) s.chunk = 7; break;
    case RANGE: { int a = c.pick (n), b = a + 1 + c.pick (n - a); in = {range (a, b)}; all = std::vector<Rc> (all.begin () + a, all.begin () + b); break; }
    case RANGES: { std::vector<Rc> o; int a = c.pick (n), b = c.pick (n); in = {range (a, a + 1), range (b, n)}; o.push_back (all[a]); o.insert (o.end (), all.begin () + b, all.end ()); all = o; files = 2; break; }
    case FILES: in = names; files = n; break;
    case LIST: { bytes l = d.at ("list"), t; int style = c.pick (6), len = style == 4 ? c.one<int> ({1021, 1022, 1023, 1024, 1025, 2046, 5000}) : style == 5 ? c.one<int> ({300, 510, 511}) : 0; for (int i = 0; i < n; i++) { if (style == 1) t += "# comment\n\n"; if (style == 4) t += "#" + bytes (len - 1, 'x') + names[0] + "\n"; t += style == 5 ? longer (names[i], len) : names[i]; if (style != 2 || i + 1 < n) t += "\n"; } if (style == 3) t = "\n#\n" + t + "\n#x"; spill (l, t); in = {"@" + l}; files = n; break; }
    case LISTRANGE: { bytes l = d.at ("list"), t; std::vector<Rc> o; for (int i = n - 1; i >= 0; i--) { t += range (i, i + 1) + "\n"; o.push_back (all[i]); } all = o; spill (l, t); in = {"@" + l}; files = n; break; }
    case LISTS: { bytes l = d.at ("list"), m = d.at ("more"), t; for (int i = 0; i < n - 1; i++) t += names[i] + "\n"; spill (l, t); spill (m, names[n - 1] + "\n"); in = {"@" + l, "@" + m}; files = n; break; }
    case MIXTURE: { bytes l = d.at ("list"), t; for (int i = 1; i < n; i++) t += names[i] + "\n"; spill (l, t); in = {names[0], "@" + l, whole}; { std::vector<Rc> o = all; all.insert (all.end (), o.begin (), o.end ()); } files = n + 1; if (n == 1) unlink (l.c_str ()), in = {names[0], whole}; break; }
    }
    judge (c, d, f, all, in, files, s);
  }, fmt ("sequences of up to %d records of %d kinds x 4 filters x 10 forms of input: file, standard input at once and in pieces, byte ranges at every pair of record bounds, several files, list files in 6 styles (with comments longer and names as long as the limit), lists of ranges, several lists, and mixtures", th ? 4 : 3, th ? 9 : 5)});

  cfg.scenarios.push_back ({"junk", [=] (Ctx &c) {
    static std::vector<Rc> kinds = mixed (); int n = 1 + c.pick (3); std::vector<Rc> all; for (int i = 0; i < n; i++) all.push_back (kinds[c.pick (4) * 2]);
    int at = c.pick (n + 1), len = c.one<int> ({1, 40, 63, 64, 100, 512, 5000}); char ch = c.one<char> ({'x', 0}); bool skip = c.flip (), piped = c.flip ();
    bytes b, before; std::vector<Rc> pre; for (int i = 0; i <= n; i++) { if (i == at) b += bytes (len, ch); if (i < n) b += all[i].raw; if (i < at) pre.push_back (all[i]); }
    Dir d; Spec s; bytes in = d.at ("in"), o = d.at ("out"); spill (in, b); s.args = {"-s", "-o", o}; if (skip) s.args.push_back ("-snd"); s.args.push_back (piped ? "-" : in); if (piped) { s.in = b; s.pipe_in = true; }
    Out r = run (s); c.step (); bytes got = slurp (o);
    if (skip)
    {
      if (r.status) fail ("%s: exits with %d with other data skipped: %s", s.line ().c_str (), r.status, r.err.c_str ());
      if (got != J (all) || r.out != lines (all) + totals (all, 1)) fail ("%s: %d bytes of 0x%02x before record %d: output holds%s and prints %s", s.line ().c_str (), len, ch, at, which (got, all).c_str (), shown (r.out).c_str ());
    }
    else if (at < n || len >= 64)
    {
      if (!r.status) fail ("%s: %d bytes of 0x%02x before record %d are not an error", s.line ().c_str (), len, ch, at);
      if (got != J (pre) || r.out.compare (0, lines (pre).size (), lines (pre))) fail ("%s: %d bytes of 0x%02x before record %d: output holds%s", s.line ().c_str (), len, ch, at, which (got, all).c_str ());
    }
    else if (got != J (pre)) fail ("%s: output holds%s", s.line ().c_str (), which (got, all).c_str ());
    c.nontriv (); c.state (Hash ().s (got).s (r.out));
  }, "1 to 3 records of 4 kinds with 7 lengths of 2 kinds of other data at every position, skipped or not, from a file or a pipe"});

  cfg.scenarios.push_back ({"bad-input", [=] (Ctx &c) {
    static std::vector<Rc> kinds = mixed (); int n = c.pick (4), at = c.pick (n + 1), kind = c.pick (9), how = c.pick (2), count = (int)c.pick (n + 2) - 1; std::vector<Rc> all, pre; for (int i = 0; i < n; i++) all.push_back (kinds[i]);
    Dir d; std::vector<bytes> names; bytes bad;
    switch (kind)
    {
    case 0: bad = bytes (d.d) + "/missing"; break;
    case 1: bad = bytes (d.d) + "/missing/x"; break;
    case 2: bad = d.at ("empty"); spill (bad, ""); break;
    case 3: bad = d.at ("garbage"); spill (bad, bytes (3000, 'g')); break;
    case 4: bad = d.at ("text"); spill (bad, "not miniSEED, only some text that goes on for a while until there is more than one search window of it\n"); break;
    case 5: bad = d.at ("beyond"); spill (bad, kinds[0].raw); bad += "@100000"; break;
    case 6: bad = d.d; break;
    case 7: bad = d.at ("crc"); { bytes b = kinds[0].raw; b[28] ^= 0x55; spill (bad, b); } break;
    case 8: bad = d.at ("version"); { bytes b = kinds[0].raw; b[2] = 4; spill (bad, b + b + b); } break;
    }
    for (int i = 0; i <= n; i++) { if (i == at) names.push_back (bad); if (i < n) { names.push_back (d.at (fmt ("f%d", i).c_str ())); spill (names.back (), all[i].raw); if (i < at) pre.push_back (all[i]); } }
    Spec s; bytes o = d.at ("out"); s.args = {"-s", "-o", o}; if (count >= 0) add (s.args, {"-n", fmt ("%d", count)});
    if (how == 0) add (s.args, names); else { bytes l = d.at ("list"), t; for (auto &x : names) t += x + "\n"; spill (l, t); s.args.push_back ("@" + l); }
    Out r = run (s); c.step (); bytes got = slurp (o);
    if (count >= 0 && count <= (int)pre.size ()) pre.resize (count); // it is never reached
    else if (!r.status) fail ("%s: unreadable input at position %d of %d is not an error", s.line ().c_str (), at, n);
    else if (r.out.find ("Files: ") != bytes::npos) fail ("%s: prints totals in spite of unreadable input", s.line ().c_str ());
    if (got != J (pre)) fail ("%s: output holds%s instead of the %zu records before the unreadable input", s.line ().c_str (), which (got, all).c_str (), pre.size ());
    if (r.out.compare (0, lines (pre).size (), lines (pre))) fail ("%s: prints %s", s.line ().c_str (), shown (r.out).c_str ());
    c.nontriv (); c.state (Hash ().s (got).s (r.out).u (r.status));
  }, "9 kinds of unreadable input at every position among up to 3 files, named directly and in a list, with every record count"});

  cfg.scenarios.push_back ({"long-entries", [=] (Ctx &c) {
    static std::vector<Rc> all = mixed (); int n = 1 + c.pick (3), at = c.pick (n), len = c.one<int> ({512, 1000, 1022, 1023, 1024, 1025, 1100, 2046, 2047, 3000}); bool nl = at + 1 < n || c.flip ();
    Dir d; bytes l = d.at ("list"), o = d.at ("out"), t; for (int i = 0; i < n; i++) { bytes x = d.at (fmt ("f%d", i).c_str ()); spill (x, all[i].raw); t += (i == at ? longer (x, len) : x) + (i + 1 < n || nl ? "\n" : ""); }
    spill (l, t); Spec s; s.args = {"-s", "-p", "-o", o, "@" + l}; Out r = run (s); c.step ();
    if (r.status == 0) { if (slurp (o) != J (std::vector<Rc> (all.begin (), all.begin () + n))) fail ("a list with a name of %d characters: the output is not that of the files listed", len); }
    else if (r.err.empty () || r.out.find ("Files: ") != bytes::npos) fail ("a list with a name of %d characters: fails without a message or with totals", len);
    c.nontriv (); c.state (Hash ().s (r.out).s (r.err));
  }, "a name of 10 lengths beyond the limit and a line buffer at every position of lists of up to 3: refused or read"});

  cfg.scenarios.push_back ({"bad-options", [=] (Ctx &c) {
    Dir d; bytes in = d.at ("in"), o = d.at ("out"); static std::vector<Rc> all = mixed (); spill (in, J (all)); unlink (o.c_str ());
    static const std::vector<std::vector<bytes>> bad = {{"-ts"}, {"-te"}, {"-m"}, {"-r"}, {"-n"}, {"-o"}, {"-b"}, {"-tt"}, {"-rt"}, {"-gmin"}, {"-gmax"}, {"-tf"}, {"-ts", "-s"}, {"-te", "-s"}, {"-m", "-s"}, {"-r", "-s"}, {"-n", "-s"}, {"-o", "-s"}, {"-ts", "x"}, {"-te", "x"}, {"-ts", "2020,400"}, {"-te", "2020-13-01"}, {"-ts", "2020-02-30"}, {"-tf", "3"}, {"-tf", "99"}, {"-q"}, {"--help"}, {"-sx"}, {"-dd"}, {"-O1"}, {"-x", "1"}, {"@/nonexistent"}, {"-o", "/nonexistent/x"}, {"-b", "/nonexistent/x"}, {"-o", "/"}, {"-b", "/"}};
    int k = c.pick ((int)bad.size ()), where = c.pick (3); bool last = bad[k].size () == 1 && bad[k][0] != "@/nonexistent" && k < 12;
    Spec s; if (where == 0 && last) return;
    if (where == 0) { s.args = bad[k]; add (s.args, {"-s", in}); } else if (where == 1) { s.args = {"-s", in}; add (s.args, bad[k]); } else { if (last) return; s.args = {in}; add (s.args, bad[k]); s.args.push_back ("-p"); }
    Out r = run (s); c.step ();
    if (!r.status) fail ("%s: exits with success", s.line ().c_str ());
    if (!r.out.empty ()) fail ("%s: prints %s", s.line ().c_str (), shown (r.out).c_str ());
    if (r.err.empty ()) fail ("%s: fails without a message", s.line ().c_str ());
    c.nontriv (); c.state (Hash ().s (r.err));
  }, "36 missing, invalid or unknown options, files and times in 3 positions"});

  // ---- what is printed does not change what is selected and written
  cfg.scenarios.push_back ({"printing", [=] (Ctx &c) {
    static std::vector<Rc> all = mixed (); Filter f; int flt = c.pick (3); if (flt == 1) f.match ("H_H"); if (flt == 2) { f.ts = true; f.vs = T0 + 9 * NS1; f.count = 3; }
    static const std::vector<std::vector<bytes>> lists = {{}, {"-t"}, {"-T"}, {"-tg"}, {"-t", "-tg"}, {"-g"}, {"-G"}, {"-S"}, {"-t", "-g"}, {"-T", "-P"}};
    int p = c.pick (4), L = c.pick ((int)lists.size ()), D = c.pick (3), v = c.pick (4); bool O = c.flip (), sum = c.flip (), z = c.flip (), bin = c.flip ();
    Dir d; bytes in = d.at ("in"), o = d.at ("out"), bf = d.at ("bin"); spill (in, J (all)); std::vector<Rc> want = f.select (all); bytes samples; for (auto &r : want) samples += r.binary ();
    Spec s; s.args = f.args (); add (s.args, {"-o", o}); if (bin) add (s.args, {"-b", bf}); for (int i = 0; i < p; i++) s.args.push_back (i == 2 ? "-pp" : "-p"); add (s.args, lists[L]); if (D) s.args.push_back (D == 1 ? "-d" : "-D"); if (O) s.args.push_back ("-O"); if (sum) s.args.push_back ("-s"); if (z) s.args.push_back ("-z"); if (v) s.args.push_back (v == 1 ? "-v" : v == 2 ? "-vv" : "-vvvv"); s.args.push_back (in);
    Out r = run (s); c.step ();
    if (r.status) fail ("%s exits with %d: %s", s.line ().c_str (), r.status, r.err.c_str ());
    bytes got = slurp (o); if (got != J (want)) fail ("%s: output file holds%s instead of%s", s.line ().c_str (), which (got, all).c_str (), which (J (want), all).c_str ());
    if (bin && slurp (bf) != samples) fail ("%s: samples written differ from those of the records", s.line ().c_str ());
    if (sum && r.out.find (totals (want, 1)) == bytes::npos) fail ("%s: totals are not printed", s.line ().c_str ());
    if (!sum && r.out.find ("Files: ") != bytes::npos) fail ("%s: totals are printed", s.line ().c_str ());
    bool only = L == 2 || L == 3 || L == 6 || L == 7 || L == 9;
    if (!z && !p && !only && v < 2) // each record has its line, preceded by its offset
    {
      size_t at = 0, off = 0, k = 0; std::vector<size_t> offs; for (auto &x : all) { if (f.keep (x) && offs.size () < want.size ()) offs.push_back (off); off += x.raw.size (); }
      for (auto &x : want)
      {
        bytes l = (O ? fmt ("%-10zu", offs[k]) : bytes ()) + line (x); size_t q = r.out.find (l, at);
        if (q == bytes::npos) fail ("%s: line %s is not printed in its place", s.line ().c_str (), jesc (l).c_str ());
        if (!D && q != at) fail ("%s: %s is printed before %s", s.line ().c_str (), shown (r.out.substr (at, q - at)).c_str (), jesc (l).c_str ());
        at = q + l.size (); k++;
      }
      if (!D && !sum && !L && at != r.out.size ()) fail ("%s: %s is printed after the records", s.line ().c_str (), shown (r.out.substr (at)).c_str ());
    }
    if (only && r.out.find (" samples, ") != bytes::npos) fail ("%s: prints records", s.line ().c_str ());
    c.nontriv (); c.state (Hash ().s (r.out));
  }, "3 filters x 4 header details x 10 lists x sample printing x verbosity x offsets x totals x raw form x sample output"});

  cfg.scenarios.push_back ({"latency", [=] (Ctx &c) {
    static const double rates[] = {1, 100, 0.25, -1, -4, -0.5, 0};
    double rate = c.of (rates); int n = 1 + c.pick (4) * 3, age = c.pick (3) * 400, ver = c.flip () ? 3 : 2; bool O = c.flip (); int list = c.pick (4);
    int64_t now = time (NULL), st = (now - age) * NS1; int64_t end = st; if (rate) end += (int64_t)((n - 1) * (rate > 0 ? 1 / rate : -rate) * 1e9);
    bytes raw;
    if (ver == 3) { Rec3 q; q.settime (st); q.samprate = rate; q.numsamples = n; q.encoding = 3; q.data = enc_plain (3, std::vector<double> (n, 5), false); raw = q.build (); }
    else { Rec2 q; q.settime (st); q.factor = rate == 0.25 ? -4 : rate == -0.5 ? 2 : (int)rate; q.numsamples = n; q.reclen = 256; q.mult = rate ? 1 : 0; q.blks.push_back (q.b1000 (3, 1, 8)); q.data = enc_plain (3, std::vector<double> (n, 5), true); raw = q.build (); }
    if (ver == 2 && rate == 0) throw PruneEx ();
    Dir d; bytes in = d.at ("in"); spill (in, raw + raw);
    Spec s; s.args = {"-L"}; if (O) s.args.push_back ("-O"); static const char *lists[] = {"", "-t", "-T", "-s"}; if (list) s.args.push_back (lists[list]); s.args.push_back (in);
    Out r = run (s); c.step (); int64_t after = time (NULL);
    if (r.status) fail ("%s exits with %d: %s", s.line ().c_str (), r.status, r.err.c_str ());
    const char *at = r.out.c_str ();
    for (int k = 0; k < (list == 2 ? 0 : 2); k++)
    {
      if (O) { bytes o = fmt ("%-10zu", k * raw.size ()); if (strncmp (at, o.c_str (), o.size ())) fail ("%s: record %d has no offset: %s", s.line ().c_str (), k, at); at += o.size (); }
      char *e = NULL; double lat = strtod (at, &e), e0 = (double)(now - end / NS1) - (end % NS1) / 1e9, tol = 0.02 + fabs (e0) * 1e-5;
      if (e == at || strncmp (e + strspn (e, " "), "secs FDSN:", 10)) fail ("%s: record %d has no latency: %s", s.line ().c_str (), k, at);
      if (lat < e0 - tol || lat > e0 + tol + (double)(after - now) + 1) fail ("%s: latency %.6f, the last sample is %.6f seconds old", s.line ().c_str (), lat, e0);
      at = strchr (e, '\n'); if (!at) fail ("no end of line"); at++;
    }
    if (strstr (at, "secs FDSN")) fail ("%s: further records are printed: %s", s.line ().c_str (), at);
    c.nontriv (); c.state (Hash ().d (rate).i (n).i (age).i (ver).i (O).i (list));
  }, "records of both versions at 7 rates and periods, of 4 lengths, ages of 0 to 800 s, with offsets, lists and totals"});
  cfg.scenarios.push_back ({"samples", [=] (Ctx &c) {
    int kind = c.pick (V2ST + 1), n = c.pick (th ? 120 : 45) + (c.flip () ? (kind == TXT ? 180 : 60) : 0), D = 1 + c.pick (2), file = c.pick (2); std::vector<Rc> all{make (kind, "XX", "STA", "00", "HHZ", 1, n, T0), make (I32, "XX", "STA", "00", "HHN", 2, 2, T0)}; if (c.flip ()) std::swap (all[0], all[1]);
    Dir d; bytes in = d.at ("in"); spill (in, J (all)); Spec s; bytes bf = d.at ("bin"); s.args = {D == 1 ? "-d" : "-D", in}; if (file) add (s.args, {"-b", bf}); Out r = run (s); c.step ();
    if (r.status) fail ("%s exits with %d: %s", s.line ().c_str (), r.status, r.err.c_str ());
    size_t at = 0;
    for (size_t k = 0; k < 2; k++)
    {
      bytes l = line (all[k]); if (r.out.compare (at, l.size (), l)) fail ("record %zu: %s where its line is due", k, shown (r.out.substr (at)).c_str ()); at += l.size ();
      size_t e = k == 0 ? r.out.find (line (all[1]), at) : r.out.size (); if (e == bytes::npos) fail ("record 1 is not printed"); bytes t = r.out.substr (at, e - at); at = e;
      auto &x = all[k];
      if (x.type == 't' && x.n) { bytes h = "Text Data:\n", u; if (t.compare (0, h.size (), h)) fail ("text is printed as %s", shown (t).c_str ()); for (char ch : t.substr (h.size ())) if (ch != '\n') u += ch; if (u != x.text) fail ("%d characters of text are printed as %s", x.n, shown (t).c_str ()); }
      else
      {
        std::vector<double> v; char *p = (char *)t.c_str (); for (;;) { while (isspace (*p)) p++; if (!*p) break; char *q; double g = strtod (p, &q); if (q == p) fail ("samples are printed as %s", shown (t).c_str ()); v.push_back (g); p = q; }
        std::vector<double> w = x.v; if (D == 1 && w.size () > 6) w.resize (6);
        if (v != w) fail ("%d samples of kind %d printed with %s: %zu values, %s", x.n, kind, D == 1 ? "-d" : "-D", v.size (), shown (t).c_str ());
      }
    }
    bytes samples; for (auto &x : all) samples += x.binary (); if (file && slurp (bf) != samples) fail ("samples written differ");
    if (n) c.nontriv (); c.state (Hash ().s (r.out));
  }, fmt ("10 kinds of records with 0 to %d samples, the first 6 or all printed, and written", th ? 180 : 105)});

  cfg.scenarios.push_back ({"undecodable", [=] (Ctx &c) {
    int n = 1 + c.pick (3), bad = c.pick (n), how = c.pick (5); std::vector<Rc> all; for (int i = 0; i < n; i++) all.push_back (make (c.pick (2) ? ST2 : FLT, "XX", "STA", "00", "HHZ", i + 1, 30, T0 + i * 30 * NS1));
    { Rec3 x; x.sid = all[bad].sid; x.settime (all[bad].st); x.numsamples = 30; x.encoding = 11; std::vector<int32_t> iv (30, 7); x.data = steim_encode (2, iv, true); if (how == 0) x.encoding = 99; if (how == 1) x.data.resize (64, 0), x.numsamples = 1000; if (how == 2) x.encoding = 5, x.data.resize (100); if (how == 3) x.data = ""; if (how == 4) x.data[4] ^= 0x40; all[bad].raw = x.build (); all[bad].n = x.numsamples; }
    Dir d; bytes in = d.at ("in"), o = d.at ("out"), bf = d.at ("bin"); spill (in, J (all)); Spec s; int D = c.pick (2); s.args = {"-T", "-b", bf, "-o", o, in}; if (D) s.args.push_back ("-D"); Out r = run (s); c.step ();
    if (slurp (o) != J (all)) fail ("output file holds%s", which (slurp (o), all).c_str ());
    if (how == 4) return; // an integrity mismatch is reported, the samples are delivered
    if (r.err.find ("ERROR") == bytes::npos && r.status == 0) fail ("%s: samples that cannot be decoded are not reported", s.line ().c_str ());
    bytes samples; for (int i = 0; i < n; i++) if (i != bad) samples += all[i].binary ();
    if (slurp (bf) != samples) fail ("%s: %zu bytes of samples instead of %zu with record %d (%d) not decodable", s.line ().c_str (), slurp (bf).size (), samples.size (), bad, how);
    c.nontriv (); c.state (Hash ().s (r.err));
  }, "1 to 3 records of 2 encodings, one of them undecodable in 5 ways"});

  cfg.scenarios.push_back ({"stdout", [=] (Ctx &c) {
    static std::vector<Rc> kinds = mixed (); int n = 1 + c.pick (th ? 4 : 3); std::vector<Rc> all; for (int i = 0; i < n; i++) all.push_back (kinds[c.pick (9)]);
    bool bin = c.flip (), recs = !bin || c.flip (); const char *mode = c.one<const char *> ({"", "-T", "-G", "-S", "-t", "-g"}); bool sum = c.flip ();
    bool only = *mode && mode[1] < 'a'; if (!only && bin) return;
    Dir d; bytes in = d.at ("in"); spill (in, J (all)); Spec s, q; for (auto a : {mode, sum ? "-s" : ""}) if (*a) s.args.push_back (a); s.args.push_back (in); q = s; if (bin) add (s.args, {"-b", "-"}); if (recs) add (s.args, {"-o", "-"});
    Out r = run (s), plain = run (q); c.step (2);
    if (r.status || plain.status) fail ("%s exits with %d (%d): %s", s.line ().c_str (), r.status, plain.status, r.err.c_str ());
    bytes data; for (auto &x : all) { if (bin) data += x.binary (); if (recs) data += x.raw; }
    if (only) { if (r.out != data + plain.out) fail ("%s: standard output has %zu bytes instead of %zu of data followed by %s", s.line ().c_str (), r.out.size (), data.size (), shown (plain.out).c_str ()); }
    else
    {
      size_t at = 0, a = 0, b = 0; for (;;) { if (a < all.size () && r.out.compare (at, all[a].raw.size (), all[a].raw) == 0) { at += all[a].raw.size (); a++; } else if (b < all.size () && r.out.compare (at, line (all[b]).size (), line (all[b])) == 0) { at += line (all[b]).size (); b++; } else break; }
      if (a != all.size () || b != all.size () || r.out.substr (at) != plain.out.substr (lines (all).size ())) fail ("%s: %zu of %zu records and %zu lines on standard output, then %s", s.line ().c_str (), a, all.size (), b, shown (r.out.substr (at)).c_str ());
    }
    c.nontriv (); c.state (Hash ().s (r.out));
  }, fmt ("sequences of up to %d of 9 records written as records, samples or both to standard output, with 6 kinds of lists and totals", th ? 4 : 3)});

  // ---- output that cannot be written completely
  cfg.scenarios.push_back ({"limits", [=] (Ctx &c) {
    bool big = c.flip (); std::vector<Rc> all; int n = big ? 30 : 3; for (int i = 0; i < n; i++) all.push_back (make (big && i % 2 ? V2BE : I32, "XX", "STA", "00", "HHZ", i + 1, big ? 60 : 3, T0 + 60 * i * NS1));
    int what = c.pick (5); bytes full, samples; for (auto &r : all) samples += r.binary (); full = what == 0 || what == 2 ? J (all) : what == 4 ? lines (all) : samples;
    Dir d; bytes in = d.at ("in"), o = d.at ("out"), so = d.at ("stdout"); spill (in, J (all)); unlink (o.c_str ()); Spec s;
    if (what < 2) { s.args = {"-n", fmt ("%d", n), what == 0 ? "-o" : "-b", o, "-G", in}; s.out_path = "/dev/null"; } else { s.args = {in}; s.out_path = so.c_str (); if (what < 4) add (s.args, {what == 2 ? "-o" : "-b", "-", "-T"}); }
    if (what == 2 || what == 3) { Spec q; q.args = {"-T", in}; full += run (q).out; }
    size_t top = full.size () + 3, k = big ? c.pick ((int)(top / 61 + 1)) * 61 : c.pick ((int)top); s.limit = k;
    Out r = run (s); c.step (); bytes got = slurp (what < 2 ? o : so);
    if (got.size () > k || full.compare (0, got.size (), got)) fail ("%s with output limited to %zu bytes: %zu bytes that are not the beginning of what is due", s.line ().c_str (), k, got.size ());
    if (k < full.size () && !r.status) fail ("%s: %zu of %zu bytes written is not reported as failure", s.line ().c_str (), got.size (), full.size ());
    if (k >= full.size () && (r.status || got != full)) fail ("%s: exits with %d and %zu of %zu bytes within a limit of %zu: %s", s.line ().c_str (), r.status, got.size (), full.size (), k, r.err.c_str ());
    if (k < full.size ()) c.nontriv (); c.state (Hash ().s (got).u (r.status));
  }, "records or samples to a file, either or printed lines to standard output, stopping at every byte of a small and every 61st of a larger output"});

  cfg.scenarios.push_back ({"devices", [=] (Ctx &c) {
    std::vector<Rc> all = mixed (); Dir d; bytes in = d.at ("in"), o = d.at ("out"); spill (in, J (all)); Spec s; int what = c.pick (7), n = c.pick (4); spill (o, bytes (9999, 'o')); s.args = {"-n", fmt ("%d", n)};
    static const char *full = "/dev/full"; bool bad = n > 0;
    switch (what)
    {
    case 0: add (s.args, {"-o", full, "-G"}); s.out_path = "/dev/null"; break;
    case 1: add (s.args, {"-b", full, "-G"}); s.out_path = "/dev/null"; break;
    case 2: add (s.args, {"-o", full, "-b", o, "-G"}); s.out_path = "/dev/null"; break;
    case 3: add (s.args, {"-b", full, "-o", o, "-G"}); s.out_path = "/dev/null"; break;
    case 4: s.out_path = full; break;
    case 5: add (s.args, {"-o", "-"}); s.out_path = full; break;
    case 6: add (s.args, {"-o", o}); bad = false; break; // replaces what was there
    }
    s.args.push_back (in); Out r = run (s); c.step (); Filter f; f.count = n; std::vector<Rc> want = f.select (all);
    if (bad != (r.status != 0)) fail ("%s with standard output %s exits with %d", s.line ().c_str (), s.out_path ? s.out_path : "kept", r.status);
    if (bad && r.err.empty ()) fail ("%s fails without a message", s.line ().c_str ());
    if (what == 6 && slurp (o) != J (want)) fail ("%s: the file holds%s", s.line ().c_str (), which (slurp (o), all).c_str ());
    if (bad) c.nontriv (); c.state (Hash ().s (r.err).u (r.status));
  }, "a full device as output file, sample file or standard output, for 0 to 3 records; an existing file replaced"});

  // ---- the linked program behaves as its main() does here
  cfg.scenarios.push_back ({"program", [=] (Ctx &c) {
    static std::vector<Rc> all = mixed (); static const std::vector<std::vector<bytes>> sets = {{}, {"-s"}, {"-p"}, {"-ppp"}, {"-D"}, {"-d", "-O"}, {"-z"}, {"-T"}, {"-tg", "-tf", "2"}, {"-G"}, {"-S"}, {"-m", "XX", "-s"}, {"-r", "H_H"}, {"-n", "3"}, {"-ts", "2020-01-01T00:00:09.000000001Z"}, {"-te", "2020,001,00:00:05"}, {"-x"}, {"-tf", "9"}, {"-v"}, {"-snd"}};
    int k = c.pick ((int)sets.size ()), form = c.pick (3), where = c.pick (3); Dir d; bytes in = d.at ("in"), o = d.at ("out"); spill (in, J (all)); Spec s; s.args = sets[k]; if (where == 1) add (s.args, {"-o", o}); if (where == 2) add (s.args, {"-o", "-"});
    if (form == 1) { s.in = J (all); s.pipe_in = true; } s.args.push_back (form == 0 ? in : form == 1 ? "-" : in + "x");
    Out a = run (s); bytes fa = slurp (o); unlink (o.c_str ()); s.exe = getenv ("MC_MSI"); Out b = run (s); bytes fb = slurp (o); c.step (2);
    if (a.status != b.status || a.out != b.out || a.err != b.err || fa != fb) fail ("%s: the executable differs from its main(): %d %d", s.line ().c_str (), a.status, b.status);
    if (form < 2 && b.status == 0) c.nontriv (); c.state (Hash ().s (b.out).s (b.err));
  }, "20 option sets x file, pipe and missing file x no, file and standard output, the executable compared with the compiled main()"});
  return mc::run (argc, argv, cfg);
}
