// P19: the logging facility: sinks, prefixes, truncation, registry histories.
#include "ref.hpp"
#include <thread>
using namespace ref;
using mc::Ctx; using mc::fail;
struct Got { int sink; bytes text; bool operator== (const Got &o) const { return sink == o.sink && text == o.text; } };
static std::vector<Got> got;
template <int N> static void sink (const char *s) { got.push_back ({N, s}); }
static void (*const SINK[]) (const char *) = {sink<0>, sink<1>, sink<2>, sink<3>, sink<4>, sink<5>};
static const size_t MAXL = MAX_LOG_MSG_LENGTH;
struct Held { int level; bytes func, text; bool trunc; };
struct Set // reference logging parameters
{
  MSLogParam *p = nullptr; int id = 0; // id: sinks 2*id (log) and 2*id+1 (diagnostic)
  bytes pre, epre = "Error: "; int max = 0; std::vector<Held> held;
};
struct Text { bytes fmtarg; };
static std::vector<bytes> texts ()
{
  std::vector<bytes> t = {"a", "line\n", "", "\n", "two\nlines", "100%s", bytes (198, 'x'), bytes (199, 'y'), bytes (198, 'z') + "\n", bytes (199, 'q') + "\n", bytes (200, 'w'), bytes (201, 'v') + "\n", bytes (500, 'u'), bytes (189, 'm'), bytes (192, 'n') , bytes (193, 'o'), bytes (191, 'r') + "\n", bytes (192, 's') + "\n", bytes (170, 't'), "\n\n", bytes (190, 'k') + bytes (20, '\n')};
  return t;
}
static const char *FN[] = {"fn", nullptr, "a_function_name_of_exactly_29c", "", "an_even_longer_function_name_than_that"};
static void expect (const std::vector<Got> &e, const char *what)
{
  if (got.size () != e.size ()) fail ("%s delivered %zu message(s), expected %zu", what, got.size (), e.size ());
  for (size_t i = 0; i < e.size (); i++) if (!(got[i] == e[i])) fail ("%s: message %zu went to sink %d as '%s' (%zu bytes), expected sink %d '%s' (%zu bytes)", what, i, got[i].sink, got[i].text.c_str (), got[i].text.size (), e[i].sink, e[i].text.c_str (), e[i].text.size ());
  got.clear ();
}
static void dolog (Ctx &c, Set &s, int level, const bytes &text, const char *fn)
{
  bytes prefix = level >= 2 ? s.epre : s.pre, full = prefix + text, cut = full.substr (0, MAXL - 1); bool tr = full.size () > MAXL - 1;
  c.say ("log to set %d level %d %zu bytes", s.id, level, full.size ());
  int rv = s.p ? ms_rlog_l (s.p, fn, level, "%s", text.c_str ()) : ms_rlog (fn, level, "%s", text.c_str ());
  c.step ();
  int len = (int)full.size ();
  if (level >= 1 && s.max > 0)
  {
    expect ({}, "logging a held message");
    if (!tr && cut.size () && cut.back () == '\n') { cut.pop_back (); len--; }
    s.held.push_back ({level, fn ? bytes (fn).substr (0, 29) : bytes (), cut, tr});
    while ((int)s.held.size () > s.max) s.held.erase (s.held.begin ());
  }
  else expect ({{2 * s.id + (level >= 1), cut}}, "logging a message");
  if (!tr ? rv != len : (rv < (int)MAXL - 2 || rv > (int)full.size ())) fail ("logging %zu bytes returned %d", full.size (), rv);
}
static void reinit (Ctx &c, Set &s, const char *pre, const char *epre, int max, int sinks)
{
  bool badp = pre && strlen (pre) >= MAXL, bade = epre && strlen (epre) >= MAXL;
  c.say ("init set %d prefix %zu error prefix %zu max %d", s.id, pre ? strlen (pre) : 0, epre ? strlen (epre) : 0, max);
  if (s.p) { if (ms_rloginit_l (s.p, sinks ? SINK[2 * s.id] : NULL, pre, sinks ? SINK[2 * s.id + 1] : NULL, epre, max) != s.p) fail ("initialising existing parameters returned others"); }
  else ms_rloginit (sinks ? SINK[2 * s.id] : NULL, pre, sinks ? SINK[2 * s.id + 1] : NULL, epre, max);
  c.step ();
  if (badp || bade)
  { // an error message about it goes the usual way for this set; its wording is not judged
    int want = badp + bade;
    if (s.max > 0)
    {
      expect ({}, "initialisation with an overlong prefix");
      // the text is unknown: fetch it through the registry with one emit each time, in order
      for (int i = 0; i < want; i++) { s.held.push_back ({2, "?", "?", true}); while ((int)s.held.size () > s.max) s.held.erase (s.held.begin ()); }
    }
    else { if ((int)got.size () != want) fail ("overlong prefix gave %zu messages, expected %d", got.size (), want); got.clear (); }
  }
  if (pre && !badp) s.pre = pre;
  if (epre && !bade) s.epre = epre;
  if (max >= 0) s.max = max;
}
static bool match (const Held &h, const Got &g, int id, bool context)
{
  if (g.sink != 2 * id + 1) return false;
  if (h.text == "?" ) return true;
  if (g.text.size () > MAXL - 1) return false;
  auto pref = [] (const bytes &g, const bytes &t) { return t.compare (0, g.size (), g) == 0; };
  if (!context || h.func.empty ()) return h.trunc ? (pref (g.text, h.text) && g.text.size () + 1 >= h.text.size ()) : g.text == h.text;
  bytes full = h.func + "() " + h.text;
  if (!pref (g.text, full)) return false;
  return g.text.size () >= std::min (full.size () - (h.trunc ? 1 : 0), std::min<size_t> (MAXL - 1, h.func.size () + 3 + MAXL - 30 - 3));
}
static void emit (Ctx &c, Set &s, int k, int context)
{
  std::vector<Held> e; size_t n = k <= 0 ? s.held.size () : std::min<size_t> (k, s.held.size ());
  e.assign (s.held.end () - n, s.held.end ()); s.held.resize (s.held.size () - n);
  int rv = ms_rlog_emit (s.p, k, context); c.step ();
  c.say ("emit %d from set %d: %d, %zu delivered", k, s.id, rv, got.size ());
  if (got.size () != e.size ()) fail ("emitting up to %d delivered %zu messages, expected %zu", k, got.size (), e.size ());
  for (size_t i = 0; i < e.size (); i++) if (!match (e[i], got[i], s.id, context)) fail ("emitted message %zu of %zu is '%s' at sink %d, expected '%s' (from %s)", i, e.size (), got[i].text.c_str (), got[i].sink, e[i].text.c_str (), e[i].func.c_str ());
  got.clear ();
  if (rv != (int)n) fail ("emitting %zu messages returned %d", n, rv);
  if (n) c.nontriv ();
}
static void drop (Ctx &c, Set &s)
{
  int rv = ms_rlog_free (s.p); c.step (); expect ({}, "freeing");
  c.say ("free set %d: %d", s.id, rv);
  if (rv != (int)s.held.size ()) fail ("freeing %zu held messages returned %d", s.held.size (), rv);
  s.held.clear ();
}
static void check_registry (Set &s)
{
  if (!s.p) return;
  size_t n = 0; for (MSLogEntry *e = s.p->registry.messages; e; e = e->next) n++;
  if (n != s.held.size () || s.p->registry.messagecnt != (int)n) fail ("registry holds %zu messages and says %d, expected %zu", n, s.p->registry.messagecnt, s.held.size ());
}
struct World
{
  std::vector<Set> s; MemCheck *mk;
  World (int n) : s (n)
  {
    got.clear (); mk = new MemCheck;
    for (int i = 0; i < n; i++)
    {
      s[i].id = i;
      if (i < 2) { s[i].p = ms_rloginit_l (NULL, SINK[2 * i], NULL, SINK[2 * i + 1], NULL, 0); if (!s[i].p) fail ("parameters not allocated"); }
      else { ms_rlog_free (NULL); ms_rloginit (SINK[4], "", SINK[5], "Error: ", 0); }
    }
  }
  void finish (Ctx &c) { for (auto &x : s) { check_registry (x); emit (c, x, 0, 0); drop (c, x); check_registry (x); } close (); mk->done ("logging history"); }
  void close () { for (auto &x : s) if (x.p) { ms_rlog_free (x.p); libmseed_memory.free (x.p); x.p = nullptr; } ms_rlog_free (NULL); log_install (); }
  ~World () { close (); delete mk; }
};
int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P19";
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  cfg.rule = "a reference registry per parameter set predicts for every call which sink receives which text in which order, the return value, the registry contents and counts; memory balance zero at the end";
  cfg.assumptions = {"the wording of the library's own complaint about an overlong prefix is not judged", "a message truncated at 199 bytes may or may not lose a final newline when held", "the return value for truncated messages may be the full or the truncated length", "with function context the message may be shortened to what fits with the longest function name"};
  static std::vector<bytes> T = texts ();
  static bytes P150 (150, 'p'), P199 (199, 'P'), P200 (200, 'B'), P198 (198, 'L');
  static const char *PRE[] = {nullptr, "", "pre: ", P150.c_str (), P198.c_str (), P199.c_str (), P200.c_str ()};
  // every text through every route
  cfg.scenarios.push_back ({"messages", [=] (Ctx &c) {
    World w (3); Set &s = w.s[c.pick (3)];
    reinit (c, s, PRE[c.pick (7)], PRE[c.pick (7)], c.pick (3) - 1, c.flip ());
    for (auto &t : T) for (int lv = 0; lv <= 3; lv++) for (const char *f : FN)
    {
      dolog (c, s, lv, t, f); check_registry (s);
      if (s.max > 0 && lv) { emit (c, s, 0, 1); dolog (c, s, lv, t, f); emit (c, s, 1, 0); }
    }
    c.nontriv (); c.state (mc::Hash ().s (s.pre).s (s.epre).i (s.max).u (s.id));
    w.finish (c);
  }, "3 parameter sets (two own, one global) x 7x7 prefixes x registry off/1 x 21 texts around the 200-byte limit x 4 levels x 5 function names, direct, emitted with and without context"});
  // histories of the registry
  auto hist = [] (Ctx &c, int D, bool full) {
    World w (full ? 3 : 2);
    Set &s0 = w.s[0]; reinit (c, s0, NULL, NULL, 1 + c.pick (3), 1); reinit (c, w.s[1], "b:", "e:", c.pick (2) * 2, 1);
    if (full) reinit (c, w.s[2], NULL, NULL, c.pick (2) * 2, 1);
    int n = 0;
    for (int d = 0; d < D; d++)
    {
      int op = c.pick (full ? 12 : 9);
      Set &s = w.s[op == 0 || !full ? 0 : c.pick ((int)w.s.size ())];
      bytes txt = mc::fmt ("m%d", n++);
      switch (op)
      {
      case 0: goto done;
      case 1: dolog (c, s, 1, txt, "f"); break;
      case 2: dolog (c, s, 2, txt + "\n", NULL); break;
      case 3: emit (c, s, 0, 0); break;
      case 4: emit (c, s, 1, 1); break;
      case 5: emit (c, s, 2, 0); break;
      case 6: drop (c, s); break;
      case 7: reinit (c, s, NULL, NULL, 1, 0); break;
      case 8: dolog (c, w.s[1], 2, txt, "g"); break;
      case 9: reinit (c, s, NULL, NULL, 3, 0); break;
      case 10: dolog (c, s, 0, txt, "f"); break;
      case 11: reinit (c, s, NULL, NULL, 0, 0); break;
      }
      for (auto &x : w.s) check_registry (x);
      mc::Hash h; for (auto &x : w.s) { h.i (x.max); for (auto &y : x.held) h.i (y.level).s (y.text); } c.state (h);
    }
  done:
    w.finish (c);
  };
  int D1 = th ? 8 : 6, D2 = th ? 5 : 4;
  cfg.scenarios.push_back ({"registry-histories", [=] (Ctx &c) { hist (c, D1, false); }, mc::fmt ("all histories of up to %d operations {log diagnostic, log error, emit all, emit 1 with context, emit 2, free, shrink to 1, log to the other set} x registry sizes 1..3 and 0/2", D1)});
  cfg.scenarios.push_back ({"three-sets", [=] (Ctx &c) { hist (c, D2, true); }, mc::fmt ("all histories of up to %d operations on two own parameter sets and the thread's own, including grow, shrink, disable and plain messages", D2)});
  cfg.scenarios.push_back ({"shrinking-prefix-histories", [=] (Ctx &c) {
    World w (2); Set &s = w.s[0]; int D = th ? 4 : 3;
    reinit (c, s, NULL, NULL, c.pick (3), 1);
    for (int d = 0; d < D; d++)
    {
      int op = c.pick (7);
      if (op < 2) reinit (c, s, PRE[1 + c.pick (6)], NULL, -1, 0);
      else if (op == 2) reinit (c, s, NULL, PRE[1 + c.pick (6)], c.pick (3), 0);
      else if (op == 3) dolog (c, s, c.pick (3), T[c.pick (3) * 4], FN[d % 3]);
      else if (op == 4) dolog (c, s, 2, T[12], FN[2]);
      else if (op == 5) emit (c, s, c.pick (2), 1);
      else break;
      check_registry (s); c.state (mc::Hash ().s (s.pre).s (s.epre).i (s.max).u (s.held.size ()));
    }
    w.finish (c);
  }, "all histories of up to 3 operations {set prefix, set error prefix and size, log, log overlong, emit}"});
  // another thread at any point of a history
  cfg.scenarios.push_back ({"other-thread", [=] (Ctx &c) {
    World w (3); Set &s = w.s[2]; reinit (c, s, "main ", "mainerr ", c.pick (2) * 2, 1);
    int at = c.pick (4), what = c.pick (4); bytes err;
    for (int d = 0; d < 4; d++)
    {
      if (d == at)
      {
        std::vector<Got> mine; mine.swap (got);
        std::thread t ([&] {
          try {
            int f = ms_rlog_free (NULL), e = ms_rlog_emit (NULL, 0, 0);
            if (f || e || got.size ()) fail ("a new thread sees %d held messages", f + e);
            ms_rloginit (SINK[0], NULL, SINK[1], NULL, what ? 3 : 0); // prefixes stay at their defaults
            ms_rlog ("t", 0, "zero"); expect ({{0, "zero"}}, "normal message of a new thread");
            ms_rlog ("t", 2, "two"); if (!what) expect ({{1, "Error: two"}}, "error message of a new thread"); else { expect ({}, "held"); if (what == 1) { ms_rlog_emit (NULL, 0, 0); expect ({{1, "Error: two"}}, "emitted error message of a new thread"); } else if (what == 2) { if (ms_rlog_free (NULL) != 1) fail ("not held"); } }
            ms_rloginit (SINK[0], "thread ", SINK[1], "thr ", 1);
            ms_rlog_free (NULL);
          } catch (mc::Violation &v) { err = v.msg; }
        });
        t.join (); if (err.size ()) fail ("%s", err.c_str ());
        got.swap (mine); c.step (4);
      }
      int lv = c.pick (3); dolog (c, s, lv, mc::fmt ("m%d", d), "f");
      if (d == 2) emit (c, s, 1, 0);
    }
    c.state (mc::Hash ().u (at).u (what).u (s.held.size ())); w.finish (c);
  }, "4 messages at all levels with another thread initialising, logging, emitting or freeing at each point"});
  // default destinations: standard output and error
  cfg.scenarios.push_back ({"default-streams", [=] (Ctx &c) {
    bytes fo = mc::fmt ("o%d", getpid ()), fe = mc::fmt ("e%d", getpid ());
    MSLogParam *p = ms_rloginit_l (NULL, NULL, c.flip () ? "L " : NULL, NULL, c.flip () ? "E " : NULL, c.flip () * 5);
    int ctx = c.flip (); bytes pre = p->logprefix ? p->logprefix : "", epre = p->errprefix ? p->errprefix : "Error: "; bool reg = p->registry.maxmessages > 0;
    bytes wo, we;
    fflush (stdout); fflush (stderr); int so = dup (1), se = dup (2); int f1 = open (fo.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600), f2 = open (fe.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2 (f1, 1); dup2 (f2, 2); close (f1); close (f2);
    int rv = 0;
    for (int i = 0; i < 3; i++)
    {
      int lv = c.pick (3); bytes t = mc::fmt ("msg%d\n", i);
      ms_rlog_l (p, "fun", lv, "%s", t.c_str ());
      (lv ? we : wo) += bytes (reg && lv && ctx ? "fun() " : "") + (lv == 2 ? epre : pre) + t;
    }
    rv = ms_rlog_emit (p, 0, ctx);
    fflush (stdout); fflush (stderr); dup2 (so, 1); dup2 (se, 2); close (so); close (se);
    bytes go = mc::readfile (fo), ge = mc::readfile (fe); unlink (fo.c_str ()); unlink (fe.c_str ());
    libmseed_memory.free (p);
    if (go != wo || ge != we) fail ("standard output got '%s' and error '%s', expected '%s' and '%s'", go.c_str (), ge.c_str (), wo.c_str (), we.c_str ());
    c.step (4); c.nontriv (); c.state (mc::Hash ().s (wo).s (we).i (rv));
  }, "parameters without functions: 3 messages at all levels, with and without prefixes, registry and context"});
  return mc::run (argc, argv, cfg);
}
