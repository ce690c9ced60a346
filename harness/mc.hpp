// Stateless explicit-state explorer for driving the real code.
//
// A scenario is a function of a choice source.  Every nondeterministic input of the scenario (argument values,
// operation order, environment answers, scheduling decisions) is drawn through Ctx::pick(n); the explorer runs the
// scenario once per complete choice sequence and thereby enumerates the whole bounded tree.  The tree is split into
// prefixes that are distributed over forked workers.  An execution fails by mc::fail(), by crashing (memory-error
// detector, signal) or by hanging; the choice sequence that was being executed is then replayed alone, in a fresh
// process, before it is reported, and is written to a replay file.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <functional>
#include <algorithm>
#include <atomic>

namespace mc {

struct Violation { std::string msg; };

inline std::string vfmt (const char *f, va_list ap)
{
  char buf[4096];
  vsnprintf (buf, sizeof buf, f, ap);
  return buf;
}
inline std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
inline std::string fmt (const char *f, ...)
{
  va_list ap; va_start (ap, f);
  std::string s = vfmt (f, ap);
  va_end (ap);
  return s;
}
[[noreturn]] inline void fail (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] inline void fail (const char *f, ...)
{
  va_list ap; va_start (ap, f);
  std::string s = vfmt (f, ap);
  va_end (ap);
  throw Violation{s};
}

static const int MAXCH   = 1 << 14; // choices per execution
static const int MAXWORK = 64;

struct Slot // one per worker, in shared memory
{
  volatile int32_t nch;
  volatile uint32_t running;
  volatile uint64_t execs, trans, nontriv, pruned;
  volatile uint32_t ch[MAXCH];
  volatile uint32_t ar[MAXCH];
  volatile int32_t violated;
  char vmsg[4096];
};

struct Shared
{
  std::atomic<uint64_t> next;
  std::atomic<uint64_t> stop;
  std::atomic<uint64_t> nstates;
  std::atomic<uint64_t> statefull;
  Slot slot[MAXWORK + 2];
};

struct Globals
{
  Shared *sh = nullptr;
  std::atomic<uint64_t> *tab = nullptr;
  uint64_t tabsize           = 0;
};
inline Globals &G () { static Globals g; return g; }

inline uint64_t mix (uint64_t h)
{
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
struct Hash
{
  uint64_t h = 0x9e3779b97f4a7c15ULL;
  Hash &u (uint64_t v) { h = mix (h ^ v) + 0x9e3779b97f4a7c15ULL; return *this; }
  Hash &i (int64_t v) { return u ((uint64_t)v); }
  Hash &d (double v) { uint64_t x; memcpy (&x, &v, 8); return u (x); }
  Hash &s (const std::string &v) { return b (v.data (), v.size ()); }
  Hash &b (const void *p, size_t n)
  {
    const unsigned char *c = (const unsigned char *)p;
    u (n);
    while (n >= 8) { uint64_t x; memcpy (&x, c, 8); u (x); c += 8; n -= 8; }
    uint64_t x = 0; memcpy (&x, c, n); return u (x);
  }
};

struct PruneEx {};

class Ctx
{
public:
  const std::vector<uint32_t> *prefix = nullptr; // choices to replay
  Slot *slot                          = nullptr;
  int n                               = 0; // choices made so far
  int maxdev = 1 << 30, devs = 0;
  bool verbose = false;
  bool probe = false; // stop at the first choice beyond the prefix
  bool nontrivial = false;
  uint64_t steps = 0, salt = 0;
  std::string tracetext;

  // one of 0..k-1
  int pick (int k)
  {
    if (k <= 0) { fprintf (stderr, "pick(%d)\n", k); abort (); }
    if (k == 1) return 0;
    if (n >= MAXCH) { fprintf (stderr, "too many choices in one execution\n"); abort (); }
    uint32_t v = 0;
    if (prefix && n < (int)prefix->size ())
    {
      v = (*prefix)[n];
      if (v >= (uint32_t)k) { fprintf (stderr, "DIVERGENCE: replayed choice %u out of %d at %d\n", v, k, n); abort (); }
    }
    slot->ch[n] = v;
    slot->ar[n] = (uint32_t)k;
    n++;
    slot->nch = n;
    if (probe && n > (int)prefix->size ()) _exit (0);
    return (int)v;
  }
  // like pick, but any answer other than 0 uses up one unit of the deviation budget
  int dev (int k)
  {
    if (devs >= maxdev) return 0;
    int v = pick (k);
    if (v) devs++;
    return v;
  }
  bool flip () { return pick (2) != 0; }
  template <class T> const T &of (const std::vector<T> &v) { return v[pick ((int)v.size ())]; }
  template <class T, size_t N> const T &of (const T (&v)[N]) { return v[pick ((int)N)]; }
  template <class T> T one (std::initializer_list<T> v) { return v.begin ()[pick ((int)v.size ())]; }
  // one transition of the system under test was executed
  void step (uint64_t k = 1) { steps += k; }
  void nontriv () { nontrivial = true; }
  // record a state/outcome of the system; returns true when it is new
  bool state (uint64_t h)
  {
    Globals &g = G ();
    if (!g.tab) return true;
    h = mix (h ^ salt);
    if (!h) h = 1;
    uint64_t i = mix (h) & (g.tabsize - 1);
    for (int p = 0; p < 64; p++, i = (i + 1) & (g.tabsize - 1))
    {
      uint64_t cur = g.tab[i].load (std::memory_order_relaxed);
      if (cur == h) return false;
      if (cur == 0)
      {
        uint64_t exp = 0;
        if (g.tab[i].compare_exchange_strong (exp, h)) { g.sh->nstates++; return true; }
        if (exp == h) return false;
      }
    }
    g.sh->statefull++;
    return true;
  }
  bool state (const Hash &h) { return state (h.h); }
  void say (const char *f, ...) __attribute__ ((format (printf, 2, 3)))
  {
    if (!verbose) return;
    va_list ap; va_start (ap, f);
    tracetext += vfmt (f, ap);
    va_end (ap);
    if (tracetext.size () && tracetext.back () != '\n') tracetext += "\n";
  }
};

struct Scenario
{
  std::string name;
  std::function<void (Ctx &)> fn;
  std::string bounds; // description of alphabet and bound
  int maxdev = 1 << 30;
  int hangsec = 60;
  bool isolate = false; // fork per execution (for scenarios that dirty global state)
};

struct Config
{
  std::string property, level = "model_checking", rule, tier;
  int seed = 1;
  std::vector<std::string> assumptions;
  std::vector<Scenario> scenarios;
  uint64_t statetab = 1 << 24;
  bool thorough () const { return tier == "thorough"; }
};

inline double now () { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string jesc (const std::string &s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt ("\\u%04x", c);
    else o += c;
  }
  return o;
}

// run one execution in this process; returns false on violation (message in slot)
inline bool exec_one (const Scenario &sc, const std::vector<uint32_t> &prefix, Slot *slot, bool verbose = false, std::string *trace = nullptr, bool probe = false)
{
  Ctx c;
  c.probe = probe;
  c.salt = Hash ().s (sc.name).h;
  c.prefix = &prefix;
  c.slot   = slot;
  c.maxdev = sc.maxdev;
  c.verbose = verbose;
  slot->nch = 0;
  bool ok   = true;
  try { sc.fn (c); }
  catch (Violation &v)
  {
    ok = false;
    snprintf (slot->vmsg, sizeof slot->vmsg, "%s", v.msg.c_str ());
  }
  catch (PruneEx &) { slot->pruned = slot->pruned + 1; }
  slot->trans = slot->trans + c.steps;
  if (c.nontrivial) slot->nontriv = slot->nontriv + 1;
  if (trace) *trace = c.tracetext;
  return ok;
}

// Memory: an execution that takes more than MEMLIMIT has failed (the library bounds what it holds by its input)
static const size_t MEMLIMIT = 3ul << 30;
inline void limit_memory ()
{
#ifndef __SANITIZE_ADDRESS__
  struct rlimit r = {MEMLIMIT, RLIM_INFINITY};
  setrlimit (RLIMIT_DATA, &r);
#endif
}
inline bool over_memory (pid_t p) // of its own, not of the tables all workers have in common
{
  char f[64], b[128]; long total, res, common; ssize_t n;
  snprintf (f, sizeof f, "/proc/%d/statm", (int)p);
  int fd = open (f, O_RDONLY);
  if (fd < 0) return false;
  n = read (fd, b, sizeof b - 1); close (fd);
  if (n <= 0) return false;
  b[n] = 0;
  return sscanf (b, "%ld %ld %ld", &total, &res, &common) == 3 && (size_t)(res - common) * 4096 > MEMLIMIT;
}

// Run one execution in a forked child with a time limit: 0 ok, 1 violation, 2 crash, 3 hang
inline int exec_forked (const Scenario &sc, const std::vector<uint32_t> &prefix, Slot *slot, int limit, const std::string &errfile, bool verbose, std::string *tracefile = nullptr, bool probe = false)
{
  fflush (nullptr);
  pid_t p = fork ();
  if (p == 0)
  {
    int fd = open (errfile.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2 (fd, 2); close (fd); }
    limit_memory ();
    std::string trace;
    bool ok = exec_one (sc, prefix, slot, verbose, &trace, probe);
    if (tracefile)
    {
      FILE *f = fopen (tracefile->c_str (), "w");
      if (f) { fputs (trace.c_str (), f); fclose (f); }
    }
    _exit (ok ? 0 : 1);
  }
  double t0 = now ();
  int st;
  for (unsigned k = 1;; k++)
  {
    pid_t r = waitpid (p, &st, WNOHANG);
    if (r == p) break;
    if (k % 16 == 0 && over_memory (p)) { kill (p, SIGKILL); waitpid (p, &st, 0); return 2; }
    if (now () - t0 > limit) { kill (p, SIGKILL); waitpid (p, &st, 0); return 3; }
    usleep (2000);
  }
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return 0;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 1) return 1;
  return 2;
}

inline std::string readfile (const std::string &p, size_t max = 1 << 20)
{
  std::string s;
  FILE *f = fopen (p.c_str (), "rb");
  if (!f) return s;
  char b[65536]; size_t n;
  while ((n = fread (b, 1, sizeof b, f)) > 0 && s.size () < max) s.append (b, n);
  fclose (f);
  return s;
}

inline void explore_prefix (const Scenario &sc, const std::vector<uint32_t> &root, Slot *slot, Shared *sh)
{
  std::vector<uint32_t> pre = root;
  for (;;)
  {
    if (sh->stop.load (std::memory_order_relaxed)) return;
    if (!exec_one (sc, pre, slot)) { slot->violated = 1; sh->stop = 1; return; }
    slot->execs = slot->execs + 1;
    // next in depth-first order, below root
    int i = slot->nch - 1;
    while (i >= (int)root.size () && slot->ch[i] + 1 >= slot->ar[i]) i--;
    if (i < (int)root.size ()) return;
    pre.assign ((uint32_t *)slot->ch, (uint32_t *)slot->ch + i + 1);
    pre[i]++;
  }
}

// environment set up before any execution in each worker (chdir to scratch, install log sink...)
inline std::function<void (int)> &worker_init () { static std::function<void (int)> f; return f; }

struct Result { uint64_t execs = 0, trans = 0, nontriv = 0, states = 0, pruned = 0; double secs = 0; bool violated = false; std::vector<std::string> samples; };

inline int nworkers ()
{
  long n = sysconf (_SC_NPROCESSORS_ONLN);
  if (const char *e = getenv ("MC_WORKERS")) n = atoi (e);
  if (n < 1) n = 1;
  if (n > 16) n = 16;
  return (int)n;
}

inline std::string outdir ()
{
  const char *e = getenv ("MC_OUT");
  return e ? e : "/tmp";
}

inline void report_violation (const Config &cfg, const Scenario &sc, const std::vector<uint32_t> &ch, const std::string &msg, const std::string &errtext, const std::string &trace)
{
  std::string path = outdir () + "/violation-" + cfg.property + ".txt";
  FILE *f          = fopen (path.c_str (), "w");
  if (f)
  {
    fprintf (f, "property %s\nscenario %s\nchoices", cfg.property.c_str (), sc.name.c_str ());
    for (auto v : ch) fprintf (f, " %u", v);
    fprintf (f, "\nmessage %s\n--- steps\n%s\n--- diagnostics\n%s\n", msg.c_str (), trace.c_str (), errtext.c_str ());
    fprintf (f, "# replay: ./check %s replay %s\n", cfg.property.c_str (), path.c_str ());
    fclose (f);
  }
  printf ("[%s/%s] %s\n", cfg.property.c_str (), sc.name.c_str (), msg.c_str ());
  if (errtext.size ()) printf ("%s\n", errtext.substr (0, 3000).c_str ());
  printf ("VIOLATION property=%s replay=%s\n", cfg.property.c_str (), path.c_str ());
  fflush (stdout);
}

inline bool run_scenario (const Config &cfg, const Scenario &sc, Result &res)
{
  Shared *sh = G ().sh;
  double t0  = now ();
  int nw     = nworkers ();
  sh->next = 0; sh->stop = 0; sh->statefull = 0;
  for (int i = 0; i < MAXWORK + 2; i++) { Slot &s = sh->slot[i]; s.execs = s.trans = s.nontriv = s.pruned = 0; s.nch = 0; s.violated = 0; s.vmsg[0] = 0; s.running = 0; }
  uint64_t states0 = sh->nstates;
  Slot *ms = &sh->slot[MAXWORK];
  std::string edir = outdir ();

  auto confirm = [&] (const std::vector<uint32_t> &ch, const char *how) -> bool {
    std::string tf = edir + "/trace.txt", ef = edir + "/confirm.err";
    std::string how0 = strcmp (how, "probe") ? "" : ms->vmsg;
    for (int w = 0; w < nw && how0.empty (); w++) if (sh->slot[w].violated) how0 = sh->slot[w].vmsg;
    ms->vmsg[0] = 0;
    int r1 = exec_forked (sc, ch, ms, sc.hangsec * 2, ef, true, &tf);
    std::string m1 = ms->vmsg;
    std::string err = readfile (ef, 20000), tr = r1 == 1 ? readfile (tf, 200000) : "";
    int r2 = exec_forked (sc, ch, ms, sc.hangsec * 2, ef, false);
    if (r1 != r2 || r1 == 0)
    {
      bool hang = strcmp (how, "hang") == 0 || r1 == 3 || r2 == 3;
      if (hang && r1 != r2)
      {
        printf ("[%s/%s] inconclusive: time limit (%s): replays gave %d and %d\n", cfg.property.c_str (), sc.name.c_str (), how, r1, r2);
        fflush (stdout);
        exit (2);
      }
      // an execution failed, but the same choices alone do not fail every time: what the code does depends on
      // something other than its inputs, such as what was called before in the same process
      std::string m = fmt ("%s; the same calls give another result when they are not preceded by other calls in the process (replays alone: %d, %d)", how0.size () ? how0.c_str () : how, r1, r2);
      report_violation (cfg, sc, ch, m, err, tr);
      return true;
    }
    std::string msg = r1 == 1 ? m1 : r1 == 2 ? std::string ("crashed (memory error or signal)") : fmt ("did not finish within %d s", sc.hangsec * 2);
    report_violation (cfg, sc, ch, msg, err, tr);
    return true;
  };

  // split the choice tree breadth first into enough prefixes (each probe runs in its own process:
  // the code under test may crash on it)
  std::vector<std::vector<uint32_t>> work;
  {
    size_t want = (size_t)nw * 24, probes = 0;
    std::deque<std::vector<uint32_t>> front;
    front.push_back ({});
    double ts = now ();
    while (!front.empty () && front.size () + work.size () < want && probes < 2 * want && now () - ts < 1.5)
    {
      std::vector<uint32_t> p = front.front ();
      front.pop_front ();
      int r = exec_forked (sc, p, ms, sc.hangsec, edir + "/probe.err", false, nullptr, true);
      probes++;
      if (r)
      {
        std::vector<uint32_t> ch ((uint32_t *)ms->ch, (uint32_t *)ms->ch + ms->nch);
        confirm (ch, "probe");
        res.violated = true;
        return false;
      }
      if (ms->nch > (int)p.size ())
      {
        uint32_t k = ms->ar[p.size ()];
        for (uint32_t v = 0; v < k; v++) { auto q = p; q.push_back (v); front.push_back (q); }
      }
      else work.push_back (p);
    }
    for (auto &q : front) work.push_back (q);
  }
  ms->trans = 0; ms->nontriv = 0;

  // samples: a few executions written out
  {
    size_t idx[3] = {0, work.size () / 2, work.size () ? work.size () - 1 : 0};
    for (int k = 0; k < 3 && work.size (); k++)
    {
      if (k && idx[k] == idx[k - 1]) continue;
      std::string tf = edir + "/sample.txt";
      if (exec_forked (sc, work[idx[k]], ms, sc.hangsec, edir + "/probe.err", true, &tf) == 0)
      {
        std::string cs;
        for (int i = 0; i < ms->nch && i < 60; i++) cs += fmt ("%s%u", i ? " " : "", ms->ch[i]);
        std::string t = readfile (tf, 1500);
        res.samples.push_back (sc.name + " choices [" + cs + "]" + (t.size () ? ": " + t.substr (0, 700) : ""));
      }
    }
    ms->trans = 0; ms->nontriv = 0;
  }

  std::vector<pid_t> pids (nw, 0);
  std::vector<uint64_t> lastex (nw, 0);
  std::vector<double> lastt (nw, now ());
  auto spawn = [&] (int w) {
    fflush (nullptr);
    pid_t p = fork ();
    if (p == 0)
    {
      int fd = open ((edir + fmt ("/worker.%d.err", w)).c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2 (fd, 2); close (fd); }
      limit_memory ();
      if (worker_init ()) worker_init () (w);
      Slot *s = &sh->slot[w];
      for (;;)
      {
        if (sh->stop.load ()) break;
        uint64_t i = sh->next.fetch_add (1);
        if (i >= work.size ()) break;
        explore_prefix (sc, work[i], s, sh);
      }
      _exit (0);
    }
    pids[w] = p;
  };
  for (int w = 0; w < nw; w++) spawn (w);
  int alive  = nw;
  int failedw = -1;
  double lastm = now ();
  const char *how = "";
  while (alive > 0)
  {
    int st;
    pid_t p = waitpid (-1, &st, WNOHANG);
    if (p > 0)
    {
      for (int w = 0; w < nw; w++)
        if (pids[w] == p)
        {
          alive--;
          pids[w] = 0;
          if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0))
          {
            if (failedw < 0) { failedw = w; how = "crash"; }
            sh->stop = 1;
          }
        }
      continue;
    }
    usleep (3000);
    double t = now ();
    bool look = t - lastm > 0.04;
    if (look) lastm = t;
    for (int w = 0; w < nw; w++)
      if (pids[w])
      {
        if (look && over_memory (pids[w])) kill (pids[w], SIGKILL);
        uint64_t e = sh->slot[w].execs;
        if (e != lastex[w]) { lastex[w] = e; lastt[w] = t; }
        else if (t - lastt[w] > sc.hangsec)
        {
          kill (pids[w], SIGKILL);
          if (failedw < 0) { failedw = w; how = "hang"; }
          sh->stop = 1;
          lastt[w] = t + 1e9;
        }
      }
  }
  for (int w = 0; w < nw; w++)
  {
    res.execs += sh->slot[w].execs;
    res.trans += sh->slot[w].trans;
    res.nontriv += sh->slot[w].nontriv;
    res.pruned += sh->slot[w].pruned;
    if (sh->slot[w].violated && failedw < 0) { failedw = w; how = "assertion"; }
  }
  res.states = sh->nstates - states0;
  res.secs   = now () - t0;
  if (failedw >= 0)
  {
    Slot &s = sh->slot[failedw];
    std::vector<uint32_t> ch ((uint32_t *)s.ch, (uint32_t *)s.ch + s.nch);
    if (strcmp (how, "hang") == 0 && s.nch == 0) { printf ("worker hung before its first choice\n"); exit (2); }
    confirm (ch, how);
    res.violated = true;
    return false;
  }
  if (sh->statefull) printf ("[%s/%s] state table full %llu times (state count is a lower bound)\n", cfg.property.c_str (), sc.name.c_str (), (unsigned long long)sh->statefull.load ());
  return true;
}

inline int run (int argc, char **argv, Config &cfg)
{
  const char *t = getenv ("VERIF_TIER");
  if (cfg.tier.empty ()) cfg.tier = (t && !strcmp (t, "thorough")) ? "thorough" : "quick";
  if (const char *s = getenv ("VERIF_SEED")) cfg.seed = atoi (s);
  mkdir (outdir ().c_str (), 0755);
  Globals &g = G ();
  g.sh  = (Shared *)mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g.tabsize = cfg.statetab;
  g.tab = (std::atomic<uint64_t> *)mmap (nullptr, g.tabsize * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g.sh == MAP_FAILED || g.tab == MAP_FAILED) { perror ("mmap"); return 2; }
  setvbuf (stdout, nullptr, _IOLBF, 0);

  if (argc >= 3 && !strcmp (argv[1], "replay"))
  {
    std::string txt = readfile (argv[2]);
    std::string scn; std::vector<uint32_t> ch;
    size_t pos = 0;
    while (pos < txt.size ())
    {
      size_t e = txt.find ('\n', pos); if (e == std::string::npos) e = txt.size ();
      std::string line = txt.substr (pos, e - pos); pos = e + 1;
      if (line.rfind ("scenario ", 0) == 0) scn = line.substr (9);
      if (line.rfind ("choices", 0) == 0)
      {
        char *p = &line[7]; char *q;
        for (;;) { unsigned long v = strtoul (p, &q, 10); if (q == p) break; ch.push_back (v); p = q; }
        break;
      }
    }
    for (auto &sc : cfg.scenarios)
      if (sc.name == scn)
      {
        if (worker_init ()) worker_init () (0);
        std::string tr;
        bool ok = exec_one (sc, ch, &g.sh->slot[0], true, &tr);
        printf ("%s%s\n", tr.c_str (), ok ? "HELD" : g.sh->slot[0].vmsg);
        if (!ok) printf ("VIOLATION property=%s replay=%s\n", cfg.property.c_str (), argv[2]);
        return ok ? 0 : 1;
      }
    fprintf (stderr, "no scenario '%s'\n", scn.c_str ());
    return 2;
  }

  double t0 = now ();
  std::vector<std::pair<std::string, Result>> rs;
  bool violated = false;
  const char *only = getenv ("MC_ONLY");
  for (auto &sc : cfg.scenarios)
  {
    if (only && !strstr (sc.name.c_str (), only)) continue;
    Result r;
    bool ok = run_scenario (cfg, sc, r);
    printf ("[%s/%s] executions=%llu transitions=%llu states=%llu nontrivial=%llu %.1fs%s\n", cfg.property.c_str (), sc.name.c_str (), (unsigned long long)r.execs,
            (unsigned long long)r.trans, (unsigned long long)r.states, (unsigned long long)r.nontriv, r.secs, ok ? "" : "  VIOLATED");
    fflush (stdout);
    rs.push_back ({sc.name, r});
    if (!ok) { violated = true; break; }
  }

  uint64_t ex = 0, tr = 0, stt = 0, nt = 0;
  for (auto &p : rs) { ex += p.second.execs; tr += p.second.trans; stt += p.second.states; nt += p.second.nontriv; }
  std::string j = "{\n";
  j += fmt (" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n", cfg.property.c_str (), cfg.tier.c_str (), cfg.seed, cfg.level.c_str ());
  j += " \"coverage\": {\n";
  if (cfg.level == "model_checking")
    j += fmt ("  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)stt, (unsigned long long)tr, (unsigned long long)ex);
  else
    j += fmt ("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"states\": %llu,\n  \"transitions\": %llu,\n", (unsigned long long)ex, (unsigned long long)stt, (unsigned long long)stt, (unsigned long long)tr);
  j += "  \"rule\": \"" + jesc (cfg.rule) + "\",\n";
  j += fmt ("  \"exhaustive\": %s,\n", violated ? "false" : "true");
  j += "  \"scenarios\": [\n";
  for (size_t i = 0; i < rs.size (); i++)
  {
    std::string b;
    for (auto &sc : cfg.scenarios) if (sc.name == rs[i].first) b = sc.bounds;
    Result &r = rs[i].second;
    j += fmt ("   {\"name\": \"%s\", \"executions\": %llu, \"transitions\": %llu, \"distinct_outcomes\": %llu, \"nontrivial\": %llu, \"seconds\": %.2f, ", rs[i].first.c_str (), (unsigned long long)r.execs,
              (unsigned long long)r.trans, (unsigned long long)r.states, (unsigned long long)r.nontriv, r.secs);
    j += "\"bounds\": \"" + jesc (b) + "\"}" + (i + 1 < rs.size () ? "," : "") + "\n";
  }
  j += "  ],\n  \"samples\": [\n";
  std::vector<std::string> ss;
  for (auto &p : rs) for (auto &s : p.second.samples) ss.push_back (s);
  for (size_t i = 0; i < ss.size (); i++) j += "   \"" + jesc (ss[i]) + "\"" + (i + 1 < ss.size () ? "," : "") + "\n";
  j += "  ]\n },\n \"assumptions\": [";
  for (size_t i = 0; i < cfg.assumptions.size (); i++) j += (i ? ", \"" : "\"") + jesc (cfg.assumptions[i]) + "\"";
  j += fmt ("],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now () - t0, violated ? 1 : 0);
  if (const char *ev = getenv ("MC_EVIDENCE"))
  {
    FILE *f = fopen (ev, "w");
    if (!f) { perror (ev); return 2; }
    fputs (j.c_str (), f);
    fclose (f);
  }
  if (violated) return 1;
  printf ("[%s] held on %llu executions, %llu transitions, %llu distinct outcomes, %.1fs\n", cfg.property.c_str (), (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)stt, now () - t0);
  return 0;
}

} // namespace mc
