// P08: reading a stream delivers exactly its records, in order, whatever the layout and however the bytes arrive.
// Sources: path, file:// path, path with byte range parsing, open descriptor, standard input, stream with short reads,
// URL through a stand-in for libcurl whose transfer steps the explorer decides.
#include "mockcurl.hpp"
#include <sys/syscall.h>
using namespace mc; using namespace ref;

// ---------------------------------------------------------------- pieces of streams
static bytes v3 (const char *sid, int n, const bytes &extra = "", int day = 1)
{
  Rec3 r; r.sid = sid; r.extra = extra; r.yday = day;
  std::vector<double> v; for (int i = 0; i < n; i++) v.push_back (i * 7 - 3);
  r.data = enc_plain (3, v, false); r.numsamples = n; r.samprate = 1;
  return r.build ();
}
static bytes v2 (int kind, size_t reclen, bool big, const char *sta = "TWO", int day = 1)
{
  Rec2 r; r.big = big; r.sta = sta; r.reclen = reclen; r.yday = day;
  int exp = 0; while ((1u << exp) < reclen) exp++;
  if (kind == 0) r.blks = {r.b1000 (3, big, exp)};
  if (kind == 1) r.blks = {r.b1001 (50, 3), r.b100 (1.0f), r.b1000 (3, big, exp)};
  std::vector<double> v; for (int i = 0; i < 12; i++) v.push_back (i * 5 - 1);
  r.data = enc_plain (3, v, big); r.numsamples = 12;
  return r.build ();
}
struct Piece { const char *name; bytes b; int kind; }; // kind 0 record, 1 version 2 record without length, 2 junk, 3 truncated tail
static std::vector<Piece> PIECES, TAILS;
static void pieces ()
{
  PIECES.push_back ({"v3-tiny", v3 ("", 0), 0});
  PIECES.push_back ({"v3", v3 ("FDSN:XX_A__L_H_Z", 30, "{\"A\":1}"), 0});
  PIECES.push_back ({"v2-512", v2 (0, 512, true), 0});
  PIECES.push_back ({"v2-256le", v2 (1, 256, false), 0});
  PIECES.push_back ({"v2-128-nolen", v2 (2, 128, true), 1});
  PIECES.push_back ({"junk1", "x", 2});
  PIECES.push_back ({"junk39", bytes (39, '-'), 2});
  PIECES.push_back ({"junk-lookalike", "MS\x02 MS3 M S\x03 000001D 000001DATA 999999Q!", 2});
  PIECES.push_back ({"junk-blank", bytes (3, ' ') + bytes (4, 0) + bytes (70, ' '), 2});
  PIECES.push_back ({"v3-long", v3 ("FDSN:XX_LONG__B_H_Z", 1200), 0});
  PIECES.push_back ({"v2-128", v2 (0, 128, true, "SMALL"), 0});
  bytes a = v3 ("FDSN:XX_A__L_H_Z", 30, "{\"A\":1}"), d = v2 (0, 512, true), e = v2 (1, 256, false);
  TAILS.push_back ({"none", "", 0});
  for (int n : {1, 39, 40, 60, (int)a.size () - 1}) TAILS.push_back ({"v3 cut", a.substr (0, n), 3});
  for (int n : {20, 40, 47, 48, 55, 56, 64, 511}) TAILS.push_back ({"v2 cut", d.substr (0, n), 3});
  for (int n : {49, 64, 76, 128, 255}) TAILS.push_back ({"v2le cut", e.substr (0, n), 3});
}

// ---------------------------------------------------------------- what must come out
struct Want { int64_t off; int len; bool must = true; };
struct Expect
{
  std::vector<Want> w;
  bool codeEOF = false, codeErr = false, codeGen = false; // required kind of final code, when any
};

// ---------------------------------------------------------------- sources
struct Cookie { const bytes *b; size_t pos = 0; std::vector<size_t> cuts; size_t chunk = 1 << 30; int failcall = -1, calls = 0; size_t failpos = ~(size_t)0; };
static ssize_t ck_read (void *v, char *p, size_t n)
{
  Cookie *k = (Cookie *)v;
  if (k->calls++ == k->failcall || k->pos >= k->failpos) { errno = EIO; return -1; }
  n = std::min ({n, k->chunk, k->b->size () - k->pos});
  if (k->failpos != ~(size_t)0) n = std::min (n, k->failpos - k->pos);
  for (size_t c : k->cuts) if (c > k->pos && c < k->pos + n) n = c - k->pos;
  memcpy (p, k->b->data () + k->pos, n);
  k->pos += n;
  return (ssize_t)n;
}
static int memfile (const bytes &b)
{
  int fd = (int)syscall (SYS_memfd_create, "s", 1);
  size_t o = 0;
  while (o < b.size ()) { ssize_t n = write (fd, b.data () + o, b.size () - o); if (n <= 0) { perror ("memfd"); abort (); } o += n; }
  lseek (fd, 0, SEEK_SET);
  return fd;
}
enum { PATH, FILEURL, FD, COOKIE, STDIN, URL };
struct Source
{
  int kind; const bytes *b; int fd = -1; FILE *oldin = nullptr; Cookie ck; MS3FileParam *msfp = nullptr; bytes path; int curl0;
  Source (int kind, const bytes *b, const bytes &suffix = "") : kind (kind), b (b)
  {
    curl0 = mcurl::live ();
    ck.b = b;
    if (kind == PATH || kind == FILEURL) { fd = memfile (*b); path = fmt ("%s/proc/self/fd/%d", kind == FILEURL ? "file://" : "", fd); }
    else if (kind == FD) { msfp = ms3_mstl_init_fd (memfile (*b)); if (!msfp) fail ("descriptor not accepted"); path = "name"; }
    else if (kind == URL) { path = "http://host/dir/file.mseed"; mcurl::srv ().content = b; }
    else path = kind == STDIN ? "-" : "cookie";
    path += suffix;
  }
  // cookies are attached when first read, after the plan of the reads was chosen
  void attach ()
  {
    if (kind != COOKIE && kind != STDIN) return;
    FILE *f = fopencookie (&ck, "rb", {ck_read, nullptr, nullptr, nullptr});
    if (kind == STDIN) { oldin = stdin; stdin = f; return; }
    int p = open ("/dev/null", O_RDONLY); msfp = ms3_mstl_init_fd (p);
    fclose ((FILE *)msfp->input.handle); msfp->input.handle = f;
  }
  void close (Ctx &c)
  {
    MS3Record *m = nullptr;
    int rc = ms3_readmsr_selection (&msfp, &m, NULL, 0, NULL, 0);
    if (rc != MS_NOERROR) fail ("closing the stream returned %d", rc);
    if (msfp) fail ("stream state remains after closing");
    if (oldin) { stdin = oldin; oldin = nullptr; }
    if (fd >= 0) ::close (fd), fd = -1;
    if (mcurl::live () != curl0) fail ("%d libcurl handle(s) not released", mcurl::live () - curl0);
    c.step ();
  }
  ~Source () { if (oldin) stdin = oldin; if (fd >= 0) ::close (fd); }
};

struct Delivery { size_t at = 0, n = 0; };
// one call; returns false at the end
static bool read_one (Ctx &c, Source &s, MS3Record **m, Delivery &d, const Expect &x, uint32_t flags, const MS3Selections *sel)
{
  int rc = ms3_readmsr_selection (&s.msfp, m, s.path.c_str (), flags, sel, 0);
  c.step ();
  if (rc == MS_NOERROR)
  {
    if (!*m) fail ("success without a record");
    int64_t end = s.msfp->streampos, off = end - (*m)->reclen;
    while (d.at < x.w.size () && !x.w[d.at].must && x.w[d.at].off != off) d.at++;
    if (d.at >= x.w.size ()) fail ("record %zu (offset %lld, %d bytes) is not in the stream", d.n, (long long)off, (*m)->reclen);
    const Want &w = x.w[d.at++];
    d.n++;
    if (off != w.off || (*m)->reclen != w.len) fail ("record %zu delivered as %d bytes ending at stream position %lld, in the stream it is %d bytes at %lld", d.n, (*m)->reclen, (long long)end, w.len, (long long)w.off);
    if (memcmp ((*m)->record, s.b->data () + w.off, w.len)) fail ("record %zu delivered with other bytes than those in the stream", d.n);
    if (s.msfp->recordcount != (int64_t)d.n) fail ("record count %lld after %zu records", (long long)s.msfp->recordcount, d.n);
    if ((flags & MSF_UNPACKDATA) && (*m)->numsamples != (*m)->samplecnt) fail ("%lld of %lld samples unpacked", (long long)(*m)->numsamples, (long long)(*m)->samplecnt);
    return true;
  }
  if (*m) fail ("record returned together with result %d", rc);
  if (s.msfp && s.msfp->recordcount != (int64_t)d.n) fail ("record count %lld at the end, %zu records delivered", (long long)s.msfp->recordcount, d.n);
  size_t missing = 0; for (size_t i = d.at; i < x.w.size (); i++) missing += x.w[i].must;
  for (size_t i = d.at; i < x.w.size (); i++) if (x.w[i].must) fail ("%zu record(s) not delivered, the first at offset %lld of %d bytes; reading ended with %d", missing, (long long)x.w[i].off, x.w[i].len, rc);
  if (x.codeGen && rc != MS_GENERROR) fail ("reading ended with %d although the source failed", rc);
  if (x.codeErr && (rc == MS_ENDOFFILE || rc == MS_NOERROR)) fail ("reading ended with %d at bytes that are no record", rc);
  if (x.codeEOF && rc != MS_ENDOFFILE && !(rc == MS_NOTSEED && d.n == 0 && !sel)) fail ("reading ended with %d instead of the end of the input (%zu records delivered)", rc, d.n);
  if (x.codeEOF && rc == MS_ENDOFFILE)
  {
    int again = ms3_readmsr_selection (&s.msfp, m, s.path.c_str (), flags, sel, 0);
    if (again != rc || *m) fail ("reading again at the end returned %d", again);
  }
  return false;
}
static size_t read_all (Ctx &c, Source &s, const Expect &x, uint32_t flags, const MS3Selections *sel = nullptr)
{
  MS3Record *m = nullptr; Delivery d;
  while (read_one (c, s, &m, d, x, flags, sel)) ;
  s.close (c);
  c.state (Hash ().u (d.n).u (x.w.size ()).u (s.kind).s (*s.b).u (flags));
  return d.n;
}

// expectation for a sequence of pieces
static Expect expect (const std::vector<const Piece *> &ps, bool skip, bytes &content)
{
  Expect x; content.clear ();
  for (auto p : ps) content += p->b;
  int64_t o = 0; bool trunc = false, stop = false;
  for (auto p : ps)
  {
    if (!stop && p->kind <= 1 && !p->b.empty ()) x.w.push_back ({o, (int)p->b.size ()});
    if (p->kind == 2 && !skip && !stop) { stop = true; x.codeErr = (int64_t)content.size () - o >= MINRECLEN; }
    if (p->kind == 3) trunc = true;
    o += p->b.size ();
  }
  if (!stop) x.codeEOF = true;
  return x;
}
static bool legal (const std::vector<const Piece *> &ps)
{
  // the length of a record without blockette 1000 is only defined by a following version 2 record or the end
  for (size_t i = 0; i + 1 < ps.size (); i++)
    if (ps[i]->kind == 1 && ps[i + 1]->b.size ())
    {
      const Piece *n = ps[i + 1];
      if (n->kind > 1 || strncmp (n->name, "v2", 2)) return false;
    }
  return true;
}

static void url_defaults () { int fd = mcurl::srv ().fd; mcurl::srv () = mcurl::Server (); mcurl::srv ().fd = fd; }

static void plan (Ctx &c, Source &s, int kind)
{
  if (s.kind == URL)
  {
    auto &v = mcurl::srv ();
    v.immediate = c.flip ();
    if (kind == 0) { v.chunk = c.one<size_t> ({16384, 1, 100}); v.endsame = c.flip (); v.trailer = v.endsame; v.idle = v.immediate; }
  }
  else if (s.kind == COOKIE && kind == 0) s.ck.chunk = c.one<size_t> ({1, 77, 1 << 20});
}

// ---------------------------------------------------------------- large streams
static bytes BIGHEAD[2]; static size_t BIGEDGE[2];
static bytes big3 (size_t len, const char *sid)
{
  Rec3 r; r.sid = sid; r.crcmode = 1; r.encoding = 3;
  r.data.assign (len - 40 - r.sid.size (), 0); r.numsamples = r.data.size () / 4;
  return r.build ();
}

int main (int argc, char **argv)
{
  setup ();
  pieces ();
  bool th = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P08";
  cfg.rule = "every record of the stream built by the harness comes out once, in order, byte identical, with matching stream position and record count, then the end of input (or an error where the source failed or holds bytes that are no record)";
  cfg.assumptions = {"libcurl follows its documented contract (a stand-in implementing it replaces it)",
                     "bytes between records do not look like a record header; a version 2 record without blockette 1000 is followed by a version 2 record or the end of the stream",
                     "a record only partly inside a requested byte range may or may not be delivered"};
  static const std::vector<int> KINDS = {PATH, FILEURL, FD, COOKIE, STDIN, URL};

  cfg.scenarios.push_back ({"layout", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    std::vector<const Piece *> ps;
    int n = 1 + c.pick (th ? 4 : 3);
    int np = n >= 4 ? 9 : (int)PIECES.size ();
    for (int i = 0; i < n; i++) ps.push_back (&PIECES[c.pick (np)]);
    if (!legal (ps)) throw PruneEx ();
    bool skip = c.flip ();
    int kind = n >= (th ? 4 : 3) ? c.one<int> ({PATH, URL}) : c.of (KINDS);
    bytes b; Expect x = expect (ps, skip, b);
    for (auto p : ps) c.say ("%s (%zu bytes)", p->name, p->b.size ());
    Source s (kind, &b);
    if (n < 3) plan (c, s, 0);
    s.attach ();
    size_t got = read_all (c, s, x, (skip ? MSF_SKIPNOTDATA : 0) | (kind == PATH && n < 3 && c.flip () ? MSF_PNAMERANGE : 0));
    mcx.done ("reading");
    if (got > 1) c.nontriv ();
  }, "every sequence of up to 3 (thorough 4) pieces out of 11 kinds (v3 of 41..4.8k bytes, v2 with/without blockette 1000, both byte orders, several kinds of other bytes) x skipping on/off x 6 sources with arrival plans"});

  cfg.scenarios.push_back ({"truncated", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    std::vector<const Piece *> ps;
    int n = c.pick (th ? 3 : 2);
    for (int i = 0; i < n; i++) ps.push_back (&PIECES[c.pick ((int)PIECES.size ())]);
    ps.push_back (&TAILS[c.pick ((int)TAILS.size ())]);
    if (!legal (ps)) throw PruneEx ();
    bool skip = c.flip ();
    bytes b; Expect x = expect (ps, skip, b);
    Source s (c.of (KINDS), &b);
    plan (c, s, 0);
    s.attach ();
    if (read_all (c, s, x, skip ? MSF_SKIPNOTDATA : 0)) c.nontriv ();
    mcx.done ("reading");
  }, "every truncated tail of 16 after every sequence of up to 1 (thorough 2) pieces x skipping x 6 sources"});

  // every way to cut the arrival into two or three parts
  static const bytes CUT = v3 ("X", 0) + v2 (2, 128, true) + v2 (1, 256, false) + v3 ("FDSN:XX_A__L_H_Z", 9, "{\"A\":1}") + v2 (2, 128, true) + v2 (0, 128, true);
  cfg.scenarios.push_back ({"arrival", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    Expect x; x.codeEOF = true;
    int64_t o = 0;
    for (int l : {(int)v3 ("X", 0).size (), 128, 256, (int)v3 ("FDSN:XX_A__L_H_Z", 9, "{\"A\":1}").size (), 128, 128}) { x.w.push_back ({o, l}); o += l; }
    // a version 3 record cannot end a record of unknown length: that one is last here but followed by version 2
    static const bytes B = CUT;
    int kind = c.one<int> ({COOKIE, URL});
    Source s (kind, &B);
    bool two = c.flip ();
    std::vector<size_t> cuts;
    if (!two) cuts = {1 + (size_t)c.pick ((int)B.size () - 1)};
    else
    {
      static std::vector<size_t> I;
      if (I.empty ()) { for (auto &w : x.w) for (int k : {0, 1, 39, 40, 47, 48, 55, 64, 112}) if (w.off + k > 0 && (size_t)(w.off + k) < B.size ()) I.push_back (w.off + k); std::sort (I.begin (), I.end ()); }
      int a = c.pick ((int)I.size ()), z = c.pick ((int)I.size ());
      if (z <= a) throw PruneEx ();
      cuts = {I[a], I[z]};
    }
    s.ck.cuts = cuts; mcurl::srv ().cuts = cuts;
    if (kind == URL) { mcurl::srv ().immediate = c.flip (); mcurl::srv ().endsame = c.flip (); mcurl::srv ().idle = c.pick (2); }
    s.attach ();
    if (read_all (c, s, x, c.flip () ? MSF_SKIPNOTDATA : 0) == 6) c.nontriv ();
    mcx.done ("reading");
  }, "a stream of 6 records: every single cut position, every pair out of all header-relevant positions, immediate or deferred resumption, idle steps"});

  // byte ranges
  static std::vector<Want> RW; static bytes RB;
  for (const bytes &p : {v3 ("FDSN:XX_A__L_H_Z", 30, "{\"A\":1}"), v2 (0, 256, true), v3 ("X", 0), v2 (1, 256, false), v3 ("", 0), v3 ("FDSN:XX_B__L_H_Z", 5)}) { RW.push_back ({(int64_t)RB.size (), (int)p.size ()}); RB += p; }
  cfg.scenarios.push_back ({"ranges", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    static std::vector<int64_t> I, S, L;
    if (I.empty ())
    {
      for (int64_t i = 0; i <= (int64_t)RB.size () + 3; i++) L.push_back (i);
      for (auto &w : RW) { I.push_back (w.off); I.push_back (w.off + w.len - 1); I.push_back (w.off + w.len); }
      for (auto &w : RW) S.push_back (w.off);
      S.push_back ((int64_t)RB.size ()); S.push_back ((int64_t)RB.size () + 100);
    }
    int64_t a = -1, z = -1; bytes suf = "@";
    int form = c.pick (6);
    bool skip = true;
    switch (form)
    {
    case 0: a = c.of (L); suf += fmt ("%lld", (long long)a); break;
    case 1: a = c.of (S); suf += fmt ("%lld-", (long long)a); skip = c.flip (); break;
    case 2: z = c.of (L); suf += fmt ("-%lld", (long long)z); skip = c.flip (); break;
    case 3: a = c.of (S); z = c.of (L); suf += fmt ("%lld-%lld", (long long)a, (long long)z); skip = c.flip (); break;
    case 4: a = c.of (L); z = c.of (I); suf += fmt ("%lld-%lld", (long long)a, (long long)z); break;
    case 5: suf = c.flip () ? "" : "@0-"; skip = c.flip (); break;
    }
    if (z == 0) throw PruneEx (); // an end of zero stands for none
    int kind = c.one<int> ({PATH, FILEURL, URL});
    Source s (kind, &RB, suf);
    int64_t lo = std::max<int64_t> (a, 0), hi = z < 0 ? (int64_t)RB.size () : std::min<int64_t> (z + 1, (int64_t)RB.size ());
    if (kind == URL)
    {
      auto &v = mcurl::srv ();
      v.immediate = c.flip ();
      if (form == 3) { v.shift = c.one<int64_t> ({0, -50}); if (a > 0 && v.shift) { lo = std::max<int64_t> (0, a + v.shift); skip = true; } }
      if (form == 5 && suf == "") v.trailer = true;
    }
    Expect x;
    for (auto &w : RW) if (w.off >= lo && w.off + MINRECLEN <= hi) x.w.push_back ({w.off, w.len, w.off + w.len <= hi});
    if (lo <= (int64_t)RB.size () - MINRECLEN && hi - lo >= MINRECLEN) x.codeEOF = true;
    c.say ("range %s: bytes %lld..%lld", suf.c_str (), (long long)lo, (long long)hi);
    if (read_all (c, s, x, MSF_PNAMERANGE | (skip ? MSF_SKIPNOTDATA : 0))) c.nontriv ();
    if (kind == URL && a > 0 && mcurl::srv ().seen_range != fmt ("%lld-", (long long)a) + (z > 0 ? fmt ("%lld", (long long)z) : bytes ())) fail ("range requested from the server: '%s' for '%s'", mcurl::srv ().seen_range.c_str (), suf.c_str ());
    mcx.done ("reading");
  }, "PATH@START, @START-, @-END, @START-END for every START x boundary ENDs and boundary STARTs x every END, on files and URLs, including a server that moves the start"});

  cfg.scenarios.push_back ({"atnames", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    char dir[] = "/tmp/p08-XXXXXX";
    if (!mkdtemp (dir)) fail ("scratch directory");
    bytes name = bytes (dir) + "/" + c.one<const char *> ({"f@12", "f@1-2", "f@x", "a@b@3-x", "f@", "plain", "f@12@0-"});
    bool flag = c.flip ();
    bytes path = name;
    if (flag && name.find ("f@12@0-") == bytes::npos) path += "@0-"; // the last @ starts the range
    FILE *f = fopen ((flag && name.find ("f@12@0-") != bytes::npos ? name.substr (0, name.size () - 3) : name).c_str (), "wb"); fwrite (RB.data (), 1, RB.size (), f); fclose (f);
    Expect x; x.w = RW; x.codeEOF = true;
    std::string err;
    try
    {
      Source s (PATH, &RB); s.path = path;
      if (read_all (c, s, x, flag ? MSF_PNAMERANGE : 0) == RW.size ()) c.nontriv ();
    }
    catch (Violation &v) { err = fmt ("name %s: ", path.c_str ()) + v.msg; }
    (void)!system (fmt ("/bin/rm -rf %s", dir).c_str ());
    if (err.size ()) fail ("%s", err.c_str ());
    mcx.done ("reading");
  }, "names holding '@' with and without range parsing"});

  // failing sources
  cfg.scenarios.push_back ({"failures", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    int kind = c.one<int> ({COOKIE, STDIN, URL});
    Source s (kind, &RB);
    size_t at = (size_t)c.pick ((int)RB.size () + 1);
    Expect x; x.codeGen = true;
    for (auto &w : RW) if (w.off + w.len <= (int64_t)at) x.w.push_back (w);
    if (kind == URL) { auto &v = mcurl::srv (); v.failat = (int64_t)at; v.immediate = c.flip (); v.endsame = c.flip (); v.chunk = c.one<size_t> ({16384, 50}); if (at == 0 && v.endsame) x.codeGen = true; }
    else { s.ck.failpos = at; s.ck.chunk = c.one<size_t> ({1 << 20, 50}); }
    s.attach ();
    c.say ("source fails after %zu bytes", at);
    if (read_all (c, s, x, c.flip () ? MSF_SKIPNOTDATA : 0)) c.nontriv ();
    mcx.done ("reading");
  }, "the source fails after every number of bytes of a stream of 5 records x descriptor, standard input, URL x delivery"});

  cfg.scenarios.push_back ({"reopen", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    // a failed open leaves the reader usable
    int bad = c.pick (6), kind = c.one<int> ({PATH, URL});
    uint32_t flags = (c.flip () ? MSF_SKIPNOTDATA : 0);
    Source s (kind, &RB);
    bytes good = s.path;
    mcurl::srv ().content = &RB;
    MS3Record *m = nullptr;
    bytes longname = "/proc/self/fd/" + bytes (600, '0');
    mcurl::srv ().status = bad == 1 ? 404 : bad == 2 ? 503 : 200;
    if (bad == 3) { mcurl::srv ().failat = 0; mcurl::srv ().endsame = true; }
    const char *p = bad == 0 ? "/nonexistent/file" : bad < 4 ? "http://host/bad" : bad == 4 ? longname.c_str () : "/proc/self/fd";
    int rc = ms3_readmsr_selection (&s.msfp, &m, p, flags, NULL, 0);
    c.step ();
    if (rc != MS_GENERROR) fail ("opening case %d returned %d", bad, rc);
    if (m) fail ("record returned from an unusable source");
    mcurl::srv ().status = 200; mcurl::srv ().failat = -1;
    if (bad == 5 || bad == 3) { s.close (c); mcx.done ("reading"); return; } // opened, reading failed: nothing promised for the same state
    if (s.fd < 0 && kind == PATH) fail ("source");
    s.path = good;
    Expect x; x.w = RW; x.codeEOF = true;
    if (read_all (c, s, x, flags) == RW.size ()) c.nontriv ();
    mcx.done ("reading");
  }, "missing file, 404, 503, failed connection, overlong name, directory: error, then the same reader reads a good source"});

  // selections skip records without disturbing the rest
  cfg.scenarios.push_back ({"selections", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    static const char *SIDS[] = {"FDSN:XX_A__L_H_Z", "FDSN:XX_TWO__L_H_Z", "FDSN:XX_C__L_H_Z"};
    bytes b; std::vector<Want> all; std::vector<int> sid, day;
    int n = 4;
    for (int i = 0; i < n; i++)
    {
      int k = c.pick (3), d = 1 + c.pick (2);
      bytes r = k == 1 ? v2 (0, 256, true, "TWO", d) : v3 (SIDS[k], 10 + i, "", d);
      all.push_back ({(int64_t)b.size (), (int)r.size ()}); sid.push_back (k); day.push_back (d);
      b += r;
    }
    MS3Selections *sel = NULL;
    int which = c.pick (5); // A; A or C; TWO on day 2; everything on day 1; nothing there
    nstime_t d2 = (nstime_t)epoch_ns (2020, 2, 0, 0, 0, 0);
    auto add = [&] (const char *p, nstime_t a, nstime_t z) { if (ms3_addselect (&sel, p, a, z, 0)) fail ("selection refused"); };
    if (which == 0 || which == 1) add (SIDS[0], NSTUNSET, NSTUNSET);
    if (which == 1) add (SIDS[2], NSTUNSET, NSTUNSET);
    if (which == 2) add (SIDS[1], d2, NSTUNSET);
    if (which == 3) add ("*", NSTUNSET, d2 - 1);
    if (which == 4) add ("FDSN:ZZ*", NSTUNSET, NSTUNSET);
    Expect x; x.codeEOF = true;
    for (int i = 0; i < n; i++)
    {
      bool w = which == 0 ? sid[i] == 0 : which == 1 ? sid[i] != 1 : which == 2 ? sid[i] == 1 && day[i] == 2 : which == 3 ? day[i] == 1 : false;
      if (w) x.w.push_back (all[i]);
    }
    Source s (c.one<int> ({PATH, URL}), &b);
    size_t got = read_all (c, s, x, MSF_UNPACKDATA | (c.flip () ? MSF_VALIDATECRC : 0), sel);
    if (got && got < (size_t)n) c.nontriv ();
    ms3_freeselections (sel);
    mcx.done ("reading");
  }, "every sequence of 4 records out of 3 identifiers x 2 days x 5 selections, with samples unpacked"});

  // two streams read alternately, in every order
  cfg.scenarios.push_back ({"interleaved", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    static const bytes B2 = v2 (0, 512, true) + v3 ("FDSN:XX_Q__L_H_Z", 3) + "junk" + v3 ("FDSN:XX_R__L_H_Z", 300);
    Expect x1, x2;
    x1.w = RW; x1.codeEOF = true;
    int64_t l3 = v3 ("FDSN:XX_Q__L_H_Z", 3).size (), l4 = v3 ("FDSN:XX_R__L_H_Z", 300).size ();
    x2.w = {{0, 512}, {512, (int)l3}, {512 + l3 + 4, (int)l4}}; x2.codeEOF = true;
    Source a (c.one<int> ({PATH, FD}), &RB), b (c.one<int> ({URL, PATH}), &B2);
    bool global = c.flip (); // first stream through the global parameters
    if (global && a.kind != PATH) throw PruneEx ();
    MS3Record *ma = nullptr, *mb = nullptr; Delivery da, db; bool ra = true, rb = true;
    Expect x1g = x1;
    while (ra || rb)
    {
      bool first = ra && rb ? c.flip () : ra;
      if (!first) { rb = read_one (c, b, &mb, db, x2, MSF_SKIPNOTDATA, NULL); continue; }
      if (!global) { ra = read_one (c, a, &ma, da, x1, MSF_SKIPNOTDATA, NULL); continue; }
      int rc = ms3_readmsr (&ma, a.path.c_str (), MSF_SKIPNOTDATA, 0);
      c.step ();
      if (da.n < RW.size ())
      {
        if (rc != MS_NOERROR || !ma || ma->reclen != RW[da.n].len || memcmp (ma->record, RB.data () + RW[da.n].off, ma->reclen)) fail ("record %zu of the first stream: result %d", da.n, rc);
        da.n++;
      }
      else { if (rc != MS_ENDOFFILE) fail ("end of the first stream: %d", rc); ra = false; }
    }
    b.close (c);
    if (global) ms3_readmsr (&ma, NULL, 0, 0); else a.close (c);
    c.nontriv ();
    mcx.done ("reading");
  }, "two streams (file or descriptor, URL or file; also through the global reader) read in every interleaving"});

  // streams longer than the read buffer
  BIGEDGE[0] = MAXRECLEN; BIGEDGE[1] = MAXRECLEN + 16384;
  for (int e = 0; e < 2; e++) BIGHEAD[e] = big3 (5000000, "FDSN:XX_BIG__L_H_Z");
  int span = th ? 700 : 64;
  cfg.scenarios.push_back ({"edge", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    // a pattern of records placed so that the end of a full read buffer falls x bytes into it
    int e = c.pick (2), pat = c.pick (4), x0 = c.pick (span);
    std::vector<bytes> tail;
    if (pat == 0) tail = {v3 ("FDSN:XX_A__L_H_Z", 30, "{\"A\":1}"), v3 ("X", 0), v2 (0, 256, true)};
    if (pat == 1) tail = {v2 (2, 128, true), v2 (2, 128, true), v2 (1, 256, false)};
    if (pat == 2) tail = {v2 (1, 256, false), v3 ("FDSN:XX_A__L_H_Z", 30)};
    if (pat == 3) tail = {v2 (0, 128, true), bytes (45, 'j'), v2 (0, 512, true)};
    bytes b = BIGHEAD[e];
    Expect x; x.codeEOF = true;
    x.w.push_back ({0, (int)b.size ()});
    size_t fill = BIGEDGE[e] - x0 - b.size ();
    bytes f = big3 (fill, "FDSN:XX_BIG__L_H_Z");
    x.w.push_back ({(int64_t)b.size (), (int)fill}); b += f;
    for (auto &t : tail) { if (t[0] != 'j') x.w.push_back ({(int64_t)b.size (), (int)t.size ()}); b += t; }
    Source s (c.one<int> ({PATH, URL}), &b);
    if (s.kind == URL) { mcurl::srv ().immediate = c.flip (); mcurl::srv ().chunk = c.one<size_t> ({16384, 9973}); }
    if (read_all (c, s, x, MSF_SKIPNOTDATA) == x.w.size ()) c.nontriv ();
    mcx.done ("reading");
  }, "10 MiB streams: the edge of the read buffer falls at each offset of four patterns of records, file and URL"});

  cfg.scenarios.push_back ({"far", [=] (Ctx &c) {
    MemCheck mcx; bytes b; std::vector<size_t> off; int n = 1 + c.pick (3); for (int i = 0; i < n; i++) { off.push_back (b.size ()); b += PIECES[c.one<int> ({0, 1, 2, 10})].b; } off.push_back (b.size ());
    int64_t mark = c.one<int64_t> ({1LL << 31, 1LL << 32, 3LL << 31, 1LL << 33, 1LL << 40}), back = c.one<int64_t> ({0, 1, 39, 40, 50, 127, 300, -1, -100000}), at = mark - back;
    int a = c.pick (n), z = c.pick (n - a + 1), tail = c.one<int> ({0, 1, 100}); // from a record to a record or the end
    std::string path = fmt ("%s/p08f.%d", getenv ("MC_SCRATCH"), getpid ()); int fd = open (path.c_str (), O_RDWR | O_CREAT | O_TRUNC, 0600);
    bytes w = b + bytes (tail, 'x'); if (fd < 0) fail ("scratch file"); bool room = pwrite (fd, w.data (), w.size (), at) == (ssize_t)w.size (); close (fd); if (!room) { unlink (path.c_str ()); throw PruneEx (); } // no files that large here
    bytes nm = path;
    int last = z ? a + z : n; nm += z ? fmt ("@%lld-%lld", (long long)(at + off[a]), (long long)(at + off[last] - 1)) : fmt ("@%lld", (long long)(at + off[a]));
    bool skip = !z && tail ? true : c.flip (); MS3FileParam *fp = NULL; MS3Record *m = NULL; int rv, i = a; uint32_t fl = MSF_PNAMERANGE | (skip ? MSF_SKIPNOTDATA : 0);
    while ((rv = ms3_readmsr_r (&fp, &m, nm.c_str (), fl, 0)) == 0)
    {
      if (i >= last || bytes (m->record, m->reclen) != b.substr (off[i], off[i + 1] - off[i])) fail ("%s: delivers %d bytes that are not record %d", nm.c_str (), m->reclen, i);
      i++; if (fp->streampos != at + (int64_t)off[i]) fail ("%s: position %lld after record %d that ends at %lld", nm.c_str (), (long long)fp->streampos, i - 1, (long long)(at + off[i]));
    }
    if (rv != MS_ENDOFFILE || i != last) fail ("%s: ends with %d after %d of %d records", nm.c_str (), rv, i - a, last - a);
    ms3_readmsr_r (&fp, &m, NULL, 0, 0); unlink (path.c_str ()); mcx.done ("reading"); c.step (); c.nontriv (); c.state (Hash ().s (nm.substr (path.size ())).u (b.size ()));
  }, "1 to 3 records of 4 kinds around the 2, 4, 6 and 8 GiB and 1 TiB marks of a file, every range of records, open end or not"});

  cfg.scenarios.push_back ({"into lists", [=] (Ctx &c) {
    // reading into a list gives the records, and the final code, that reading one record at a time gives
    bytes b; int n = c.pick (4); for (int i = 0; i < n; i++) b += PIECES[1 + c.pick ((int)PIECES.size () - 1)].b;
    b += TAILS[c.one<int> ({0, 1, 4, 6, 12, 15})].b;
    uint32_t fl = c.flip () ? MSF_SKIPNOTDATA : 0; int how = c.pick (3), unpack = c.flip ();
    MemCheck mcx; std::string path = fmt ("%s/p08l.%d", getenv ("MC_SCRATCH"), getpid ());
    FILE *f = fopen (path.c_str (), "wb"); fwrite (b.data (), 1, b.size (), f); fclose (f);
    MS3FileParam *fp = NULL; MS3Record *m = NULL; int rv, got = 0, segs = 0; int64_t samples = 0, have = 0; if (unpack) fl |= MSF_UNPACKDATA;
    while ((rv = ms3_readmsr_r (&fp, &m, path.c_str (), fl, 0)) == 0) { got++; samples += m->samplecnt; }
    ms3_readmsr_r (&fp, &m, NULL, 0, 0);
    MS3TraceList *tl = NULL; int lv = how == 0 ? ms3_readtracelist (&tl, path.c_str (), NULL, 0, fl, 0) : how == 1 ? ms3_readtracelist_timewin (&tl, path.c_str (), NULL, NSTUNSET, NSTUNSET, 0, fl, 0) : ms3_readtracelist_selection (&tl, path.c_str (), NULL, NULL, 0, fl | MSF_RECORDLIST, 0);
    int recs = 0;
    if (tl) for (MS3TraceID *id = tl->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *s = id->first; s; s = s->next) { segs++; have += s->samplecnt; if (s->recordlist) recs += (int)s->recordlist->recordcnt; }
    if (how == 2 && recs != got) fail ("reading into a list keeps %d records of the %d delivered one at a time", recs, got);
    mstl3_free (&tl, 0); unlink (path.c_str ()); c.step ();
    if (lv != (rv == MS_ENDOFFILE ? MS_NOERROR : rv)) fail ("reading one record at a time ends with %d, reading into a list returns %d (%d records, %zu bytes)", rv, lv, got, b.size ());
    if (have != samples) fail ("reading into a list keeps %lld samples of the %lld delivered one record at a time", (long long)have, (long long)samples);
    mcx.done ("reading"); if (got && rv != MS_ENDOFFILE) c.nontriv (); c.state (Hash ().i (rv).i (got).i (samples).i (segs));
  }, "sequences of up to 3 records and other data x 6 tails x skipping or not x 3 functions reading into lists"});

  static std::vector<Piece> LARGE;
  {
    size_t M = MAXRECLEN;
    for (size_t n : {M, M - 1, M - 16384, M - 16384 - 41, (size_t)1000000}) LARGE.push_back ({"big", big3 (n, "FDSN:XX_BIG__L_H_Z"), 0});
    LARGE.push_back ({"v3-tiny", v3 ("", 0), 0});
    LARGE.push_back ({"v2-512", v2 (0, 512, true), 0});
    LARGE.push_back ({"junk", bytes (41, '='), 2});
  }
  cfg.scenarios.push_back ({"large", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    int n = 1 + c.pick (th ? 3 : 2);
    std::vector<const Piece *> ps;
    for (int i = 0; i < n; i++) ps.push_back (&LARGE[c.pick ((int)LARGE.size ())]);
    bool skip = c.flip ();
    bytes b; Expect x = expect (ps, skip, b);
    Source s (c.one<int> ({PATH, COOKIE, URL}), &b);
    if (s.kind == URL) { mcurl::srv ().immediate = c.flip (); mcurl::srv ().chunk = c.one<size_t> ({16384, 16383, 7000}); }
    else if (s.kind == COOKIE) s.ck.chunk = 65536;
    s.attach ();
    if (read_all (c, s, x, skip ? MSF_SKIPNOTDATA : 0) > 1) c.nontriv ();
    mcx.done ("reading");
  }, "every sequence of up to 2 (thorough 3) out of 5 large records up to the maximum length, small ones and other bytes x skipping x file, descriptor, URL"});

  cfg.scenarios.push_back ({"toolong", [=] (Ctx &c) {
    MemCheck mcx; url_defaults ();
    // a header that announces more than the maximum record length is no record
    Rec3 r; r.sid = "FDSN:XX_BIG__L_H_Z"; bytes h = r.build ();
    uint32_t len = c.one<uint32_t> ({(uint32_t)(MAXRECLEN + 1 - h.size ()), 0x7fffffff, 0xffffffff, (uint32_t)(MAXRECLEN + 16384), (uint32_t)(MAXRECLEN + 16385)});
    set (h, 36, len, 4, false);
    bool skip = c.flip ();
    bytes a = v3 ("X", 0), b = a + h + v2 (0, 256, true) + a;
    Expect x; x.w.push_back ({0, (int)a.size ()});
    if (skip) { x.codeEOF = true; x.w.push_back ({(int64_t)(a.size () + h.size ()), 256}); x.w.push_back ({(int64_t)(a.size () + h.size () + 256), (int)a.size ()}); }
    else x.codeErr = true;
    Source s (c.one<int> ({PATH, URL}), &b);
    if (read_all (c, s, x, skip ? MSF_SKIPNOTDATA : 0) > 1) c.nontriv ();
    mcx.done ("reading");
  }, "headers announcing more than the maximum record length between records"});
  return run (argc, argv, cfg);
}
