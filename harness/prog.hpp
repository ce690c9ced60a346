// Running the msi program: its main() compiled as msi_main, in a forked child with captured streams, or the real
// executable.
#pragma once
#include "world.hpp"
#include <csignal>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
extern "C" int msi_main (int, char **);
namespace prog {
using namespace mc; using namespace ref;
struct Out { int status = -1; bool crashed = false; bytes out, err; };
struct Spec
{
  std::vector<bytes> args; bytes in; bool pipe_in = false; size_t chunk = 0; // standard input, in writes of this size
  int64_t limit = -1;       // no file may grow beyond this size
  const char *out_path = NULL; // standard output goes there instead
  std::function<int ()> fn; // to be called instead of msi_main
  const char *exe = NULL;   // a program to execute instead of msi_main
  bytes line () const { bytes s = "msi"; for (auto &a : args) s += " '" + a + "'"; return s; }
};
inline bytes fdbytes (int fd) { bytes b; struct stat st; fstat (fd, &st); b.resize (st.st_size); if (st.st_size && pread (fd, &b[0], b.size (), 0) != (ssize_t)b.size ()) fail ("reading captured output"); return b; }
inline Out run (const Spec &s)
{
  static int fo = -1, fe = -1, fi = -1; static pid_t owner = 0;
  if (owner != getpid ()) { owner = getpid (); fo = memfd_create ("o", 0); fe = memfd_create ("e", 0); fi = memfd_create ("i", 0); }
  for (int f : {fo, fe, fi}) { if (ftruncate (f, 0)) fail ("ftruncate"); lseek (f, 0, SEEK_SET); }
  int pp[2] = {-1, -1};
  if (s.pipe_in) { if (pipe (pp)) fail ("pipe"); }
  else { if (write (fi, s.in.data (), s.in.size ()) != (ssize_t)s.in.size ()) fail ("write"); lseek (fi, 0, SEEK_SET); }
  fflush (NULL);
  pid_t p = fork ();
  if (p < 0) fail ("fork");
  if (p == 0)
  {
    dup2 (s.pipe_in ? pp[0] : fi, 0);
    if (s.pipe_in) { close (pp[0]); close (pp[1]); }
    int o = s.out_path ? open (s.out_path, O_WRONLY | O_CREAT | O_TRUNC, 0600) : fo;
    dup2 (o, 1); dup2 (fe, 2);
    signal (SIGXFSZ, SIG_IGN);
    std::set_terminate ([] { abort (); });
    if (s.limit >= 0) { struct rlimit r = {(rlim_t)s.limit, (rlim_t)s.limit}; setrlimit (RLIMIT_FSIZE, &r); }
    std::vector<char *> av; av.push_back ((char *)"msi"); for (auto &a : s.args) av.push_back ((char *)a.c_str ()); int n = av.size (); av.push_back (NULL);
    if (s.exe) { struct rlimit nl = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit (RLIMIT_DATA, &nl); execv (s.exe, av.data ()); _exit (126); }
    setvbuf (stdout, NULL, _IOFBF, 4096);
    int rc = s.fn ? s.fn () : msi_main (n, av.data ());
    exit (rc);
  }
  if (s.pipe_in)
  {
    close (pp[0]); signal (SIGPIPE, SIG_IGN);
    for (size_t o = 0; o < s.in.size ();) { size_t n = std::min (s.chunk ? s.chunk : s.in.size (), s.in.size () - o); if (write (pp[1], s.in.data () + o, n) < 0) break; o += n; }
    close (pp[1]);
  }
  int st = 0; while (waitpid (p, &st, 0) < 0) if (errno != EINTR) fail ("waitpid");
  Out r; r.out = fdbytes (fo); r.err = fdbytes (fe);
  if (WIFEXITED (st)) r.status = WEXITSTATUS (st); else { r.crashed = true; r.status = 128 + WTERMSIG (st); }
  if (r.crashed || r.status == 99) fail ("%s: the program crashed (%d): %s", s.line ().c_str (), r.status, r.err.substr (0, 2000).c_str ());
  return r;
}

// ---------------------------------------------------------------- records with independently known content
struct Rc
{
  bytes raw, sid; int ver = 1, fv = 3, n = 0; nstime_t st = 0, en = 0; double hz = 1; char type = 'i'; std::vector<double> v; bytes text; bool decodes = true;
  bytes binary () const
  {
    bytes b; if (type == 't') return text;
    for (double x : v) { if (type == 'i') { int32_t i = (int32_t)x; b.append ((char *)&i, 4); } else if (type == 'f') { float f = (float)x; b.append ((char *)&f, 4); } else b.append ((char *)&x, 8); }
    return b;
  }
};
enum { I32, ST1, ST2, FLT, DBL, TXT, HDR, V2BE, V2LE, V2ST };
// n samples with values key * 1000 + i, at rate (negative: period) from st
inline Rc make (int kind, const bytes &net, const bytes &sta, const bytes &loc, const bytes &chan, int key, int n, nstime_t st, double rate = 1, int ver = 1, const bytes &extra = "")
{
  Rc r; r.sid = "FDSN:" + net + "_" + sta + "_" + loc + "_" + chan.substr (0, 1) + "_" + chan.substr (1, 1) + "_" + chan.substr (2, 1);
  r.ver = ver; r.hz = rate >= 0 ? rate : -1 / rate; r.st = st; r.fv = kind >= V2BE ? 2 : 3; r.type = kind == FLT ? 'f' : kind == DBL ? 'd' : kind == TXT ? 't' : 'i';
  if (kind == HDR) n = 0;
  r.n = n; std::vector<int32_t> iv;
  for (int i = 0; i < n; i++) { r.v.push_back (key * 1000 + i * (i % 3 - 1)); iv.push_back ((int32_t)r.v.back ()); r.text += (char)('a' + (key + i) % 26); }
  r.en = n > 1 && rate != 0 ? st + (nstime_t) ((rate > 0 ? (long double)(n - 1) * 1e9L / rate : (long double)(n - 1) * 1e9L * -rate) + 0.5L) : st;
  if (r.fv == 3)
  {
    Rec3 x; x.sid = r.sid; x.settime (st); x.numsamples = n; x.pubver = ver; x.samprate = rate; x.extra = extra;
    x.encoding = kind == I32 ? 3 : kind == ST1 ? 10 : kind == ST2 ? 11 : kind == FLT ? 4 : kind == DBL ? 5 : kind == TXT ? 0 : 3;
    x.data = n == 0 ? bytes () : kind == ST1 ? steim_encode (1, iv, true) : kind == ST2 ? steim_encode (2, iv, true) : kind == TXT ? r.text : enc_plain (x.encoding, r.v, false);
    r.raw = x.build ();
  }
  else
  {
    Rec2 x; x.big = kind != V2LE; x.settime (st); x.numsamples = n; x.sta = sta; x.loc = loc; x.chan = chan; x.net = net; x.quality = ver == 1 ? 'R' : ver == 2 ? 'D' : ver == 3 ? 'Q' : 'M'; x.reclen = 512;
    x.factor = rate > 0 ? (int)rate : -(int)-rate; x.mult = 1;
    x.blks.push_back (x.b1000 (kind == V2ST ? 10 : 3, x.big ? 1 : 0, 9));
    x.data = kind == V2ST ? steim_encode (1, iv, true) : enc_plain (3, r.v, x.big);
    r.raw = x.build ();
  }
  return r;
}
inline bytes isotime (nstime_t t, int digits = 9, char sep = 'T', const char *zone = "Z") { Civil c = civil (t); bytes s = fmt ("%04lld-%02d-%02d%c%02d:%02d:%02d", (long long)c.year, c.month, c.mday, sep, c.hour, c.min, c.sec); if (digits) s += "." + fmt ("%09u", c.nsec).substr (0, digits); return s + zone; }
inline bytes ordtime (nstime_t t, int digits = 9) { Civil c = civil (t); bytes s = fmt ("%04lld,%03d,%02d:%02d:%02d", (long long)c.year, c.yday, c.hour, c.min, c.sec); if (digits) s += "." + fmt ("%09u", c.nsec).substr (0, digits); return s; }
inline bytes epochtime (nstime_t t, int digits = 9) { bool neg = t < 0; unsigned long long a = neg ? -(unsigned long long)t : t; bytes s = (neg ? "-" : "") + fmt ("%llu", a / 1000000000ULL); if (digits) s += "." + fmt ("%09llu", a % 1000000000ULL).substr (0, digits); return s; }
inline int micro_digits (nstime_t t) { return t % 1000 ? 9 : 6; }
inline bytes line (const Rc &r) { return fmt ("%s, %d, %zu, %d samples, %.10g Hz, %s (%03d)\n", r.sid.c_str (), r.ver, r.raw.size (), r.n, r.hz, isotime (r.st, micro_digits (r.st)).c_str (), civil (r.st).yday); }
} // namespace prog
