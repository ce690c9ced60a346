// P16: extra headers as a JSON document under get, set, merge, append and replace.
#include "json.hpp"
using namespace ref; using js::J;
using mc::Ctx; using mc::fail;
static const char *PTRS[] = {"/a", "/a/b", "/a/c/d", "/b", "/arr", "/arr/0", "/arr/1", "/arr/-", "/arr/5", "/arr/00", "/a~1b", "/t~0", "/q\"x", "/bad~2", "", "x", "/", "//", "/FDSN/Event/Detection", "/FDSN/Event/Detection/0/Type", "/FDSN/Time/Exception", "/\xc3\xa9"};
struct Op { char kind; bytes ptr; J v; bytes text; bytes name; int which = 0; }; // kind: n i s b M R(eplace) E C T Z (adders)
static J ev_json (int w)
{
  J o = J::O ();
  if (w == 0) { o.put ("Type", J::S ("MURDOCK")); o.put ("SignalAmplitude", J::N (1.5)); o.put ("Wave", J::S ("DIL")); o.put ("OnsetTime", J::S ("2020-01-01T00:00:01.500000Z")); J a = J::A (); for (int i = 0; i < 6; i++) a.a.push_back (J::I (i * 51)); o.put ("MEDSNR", a); o.put ("MEDLookback", J::I (0)); o.put ("MEDPickAlgorithm", J::I (255)); o.put ("Detector", J::S ("d\"q")); }
  return o;
}
static MSEHEventDetection ev (int w)
{
  MSEHEventDetection e; memset (&e, 0, sizeof e); e.onsettime = NSTUNSET; e.medlookback = e.medpickalgorithm = -1;
  if (w == 0) { strcpy (e.type, "MURDOCK"); e.signalamplitude = 1.5; strcpy (e.wave, "DIL"); e.onsettime = 1577836801500000000LL; for (int i = 0; i < 6; i++) e.medsnr[i] = i * 51; e.medlookback = 0; e.medpickalgorithm = 255; strcpy (e.detector, "d\"q"); }
  return e;
}
static bool unser (const J &v) // cannot be written as JSON
{
  if (v.t == 'n') return !std::isfinite (v.d);
  if (v.t == 's') return v.s == "\xff\xfe";
  return false;
}
struct Rec
{
  MS3Record *m; J doc; bool none = true; bytes before; LM_PARSED_JSON *st = nullptr; bool shared = false, dirty = false;
  Rec (const bytes &init, bool sh) : shared (sh)
  {
    m = msr3_init (NULL);
    if (init.size ()) { m->extra = (char *)libmseed_memory.malloc (init.size ()); memcpy (m->extra, init.data (), init.size ()); m->extralength = init.size (); none = false; if (!js::parse (init, doc)) fail ("initial document"); }
    before = text ();
  }
  ~Rec () { mseh_free_parsestate (&st); msr3_free (&m); }
  bytes text () { return m->extralength ? bytes (m->extra, m->extralength) : bytes (); }
  LM_PARSED_JSON **state () { return shared ? &st : nullptr; }
};
static void check_text (Rec &r, const char *what)
{
  if (r.m->extralength == 0) { if (!r.none) fail ("%s: headers are empty, expected %s", what, js::dump (r.doc).c_str ()); return; }
  J got; bytes t = r.text ();
  if (!js::parse (t, got)) fail ("%s: stored headers are not JSON: %s", what, t.substr (0, 200).c_str ());
  if (r.none) fail ("%s: headers are %s, expected none", what, t.c_str ());
  if (!js::eq (got, r.doc)) fail ("%s: headers are %s, expected %s", what, t.substr (0, 400).c_str (), js::dump (r.doc).substr (0, 400).c_str ());
}
static void check_gets (Ctx &c, Rec &r, bool wide)
{
  for (const char *p : PTRS)
  {
    if (!wide && strlen (p) > 3) continue;
    J *x = r.none ? nullptr : js::get (r.doc, p);
    for (char t : {'n', 'i', 's', 'b', 'e'})
    {
      union { double d; int64_t i; char s[16]; int b; } v; memset (&v, 0x55, sizeof v);
      int rv = t == 'e' ? mseh_get_ptr_r (r.m, p, NULL, 0, 0, r.state ()) : mseh_get_ptr_r (r.m, p, &v, t, sizeof v.s, r.state ());
      c.step ();
      int want;
      if (r.none && !(r.shared && r.st)) want = 1;
      else if (p[0] != '/') want = -1;
      else if (!x) want = 1;
      else if (t == 'e') want = 0;
      else want = (t == 'n' && (x->t == 'n' || x->t == 'i')) || (t == 'i' && x->t == 'i') || (t == 's' && x->t == 's') || (t == 'b' && x->t == 'b') ? 0 : 2;
      if (p[0] != '/' && (rv < 0 || rv == 1)) continue;
      if (rv != want) fail ("get '%s' as '%c' from %s returned %d, expected %d", p, t, r.none ? "nothing" : js::dump (r.doc).substr (0, 300).c_str (), rv, want);
      if (rv || t == 'e') continue;
      bool ok = t == 'n' ? v.d == (x->t == 'n' ? x->d : (double)x->i) : t == 'i' ? v.i == x->i : t == 'b' ? v.b == x->b : x->s.substr (0, 15) == v.s;
      if (!ok) fail ("get '%s' as '%c' from %s gave another value", p, t, js::dump (r.doc).substr (0, 300).c_str ());
    }
  }
}
static void apply (Ctx &c, Rec &r, const Op &op)
{
  bytes before = r.text (); uint16_t bl = r.m->extralength;
  J nd = r.doc; bool ok = false, nn = false;
  J empty = J::O (); J &base = r.none ? empty : nd; // setting in no headers starts with an empty object
  double d = op.v.d; int64_t i = op.v.i; int b = op.v.b ? 7 : 0; int rv;
  c.say ("%s %s", op.name.c_str (), op.ptr.c_str ());
  switch (op.kind)
  {
  case 'n': rv = mseh_set_ptr_r (r.m, op.ptr.c_str (), &d, 'n', r.state ()); break;
  case 'i': rv = mseh_set_ptr_r (r.m, op.ptr.c_str (), &i, 'i', r.state ()); break;
  case 's': rv = mseh_set_ptr_r (r.m, op.ptr.c_str (), (void *)op.v.s.c_str (), 's', r.state ()); break;
  case 'b': rv = mseh_set_ptr_r (r.m, op.ptr.c_str (), &b, 'b', r.state ()); break;
  case 'M': rv = mseh_set_ptr_r (r.m, op.ptr.c_str (), (void *)op.text.c_str (), 'M', r.state ()); break;
  case 'E': { MSEHEventDetection e = ev (op.which); rv = mseh_add_event_detection_r (r.m, op.ptr.empty () ? NULL : op.ptr.c_str (), &e, r.state ()); break; }
  case 'C': { MSEHCalibration k; memset (&k, 0, sizeof k); strcpy (k.type, "STEP"); k.begintime = -1000000000LL; k.endtime = NSTUNSET; k.steps = 0; k.firstpulsepositive = 1; k.alternatesign = 0; k.continued = -1; k.amplitude = -2.5; strcpy (k.inputunits, "V"); k.duration = 30; rv = mseh_add_calibration_r (r.m, op.ptr.empty () ? NULL : op.ptr.c_str (), &k, r.state ()); break; }
  case 'T': { MSEHTimingException k; memset (&k, 0, sizeof k); k.time = 0; k.vcocorrection = 0.5; k.receptionquality = 0; k.count = 4294967295u; strcpy (k.type, "MISSING"); rv = mseh_add_timing_exception_r (r.m, op.ptr.empty () ? NULL : op.ptr.c_str (), &k, r.state ()); break; }
  case 'Z': { MSEHRecenter k; memset (&k, 0, sizeof k); strcpy (k.type, "MASS"); k.begintime = 1577836800000000000LL; k.endtime = 1577836800123456789LL; strcpy (k.trigger, "MANUAL"); rv = mseh_add_recenter_r (r.m, op.ptr.empty () ? NULL : op.ptr.c_str (), &k, r.state ()); break; }
  case 'R': rv = mseh_replace (r.m, op.which == 1 ? NULL : (char *)op.text.c_str ()); break;
  default: rv = mseh_set_ptr_r (r.m, op.ptr.c_str (), &i, op.kind, r.state ()); break;
  }
  c.step ();
  // the model
  if (strchr ("nisb", op.kind)) ok = !op.ptr.empty () && js::set (base, op.ptr, op.v);
  else if (op.kind == 'M')
  {
    J p; ok = js::parse (op.text, p);
    if (ok) { J *x = r.none ? nullptr : js::get (nd, op.ptr); ok = x != nullptr; if (ok) { J m = js::merge (x, p); *x = m; } }
  }
  else if (strchr ("ECTZ", op.kind))
  {
    bytes ptr = op.ptr.size () ? op.ptr : op.kind == 'E' ? "/FDSN/Event/Detection" : op.kind == 'C' ? "/FDSN/Calibration/Sequence" : op.kind == 'T' ? "/FDSN/Time/Exception" : "/FDSN/Recenter/Sequence";
    J o = J::O ();
    if (op.kind == 'E') o = ev_json (op.which);
    else if (op.kind == 'C') { o.put ("Type", J::S ("STEP")); o.put ("BeginTime", J::S ("1969-12-31T23:59:59Z")); o.put ("Steps", J::I (0)); o.put ("StepFirstPulsePositive", J::B (1)); o.put ("StepAlternateSign", J::B (0)); o.put ("Amplitude", J::N (-2.5)); o.put ("InputUnits", J::S ("V")); o.put ("Duration", J::N (30)); }
    else if (op.kind == 'T') { o.put ("Time", J::S ("1970-01-01T00:00:00Z")); o.put ("VCOCorrection", J::N (0.5)); o.put ("ReceptionQuality", J::I (0)); o.put ("Count", J::I (4294967295LL)); o.put ("Type", J::S ("MISSING")); }
    else { o.put ("Type", J::S ("MASS")); o.put ("BeginTime", J::S ("2020-01-01T00:00:00Z")); o.put ("EndTime", J::S ("2020-01-01T00:00:00.123456789Z")); o.put ("Trigger", J::S ("MANUAL")); }
    J *x = js::get (base, ptr);
    if (x) { ok = x->t == 'a'; if (ok) x->a.push_back (o); }
    else { J a = J::A (); a.a.push_back (o); ok = js::set (base, ptr, a); }
  }
  else if (op.kind == 'R') { if (op.which == 1) { ok = nn = true; } else ok = js::parse (op.text, nd) && !op.text.empty (); }
  bytes what = op.name + " '" + op.ptr + "' on " + (r.none ? "nothing" : js::dump (r.doc).substr (0, 300));
  if (op.kind == 'R' ? (ok ? rv != (int)r.m->extralength : rv >= 0) : (rv < 0) == ok) fail ("%s returned %d, expected %s", what.c_str (), rv, ok ? "success" : "failure");
  if (!ok || r.shared) { if (r.text () != before || r.m->extralength != bl) fail ("%s %s but changed the stored headers to %s", what.c_str (), ok ? "was not serialised yet" : "failed", r.text ().substr (0, 200).c_str ()); }
  if (ok) { if (op.kind == 'R') r.doc = nd; else r.doc = base; r.none = nn; r.dirty = true; if (!r.shared) check_text (r, what.c_str ()); c.nontriv (); }
}
static Op S (const bytes &p, const J &v) { Op o; o.kind = v.t; o.ptr = p; o.v = v; o.name = "set " + js::dump (v).substr (0, 40); return o; }
static Op M (const bytes &p, const bytes &t) { Op o; o.kind = 'M'; o.ptr = p; o.text = t; o.name = "merge " + t.substr (0, 60); return o; }
static Op X (char k, const bytes &p, int w = 0) { Op o; o.kind = k; o.ptr = p; o.which = w; o.name = mc::fmt ("add %c%d", k, w); return o; }
static Op R (const bytes &t, int null = 0) { Op o; o.kind = 'R'; o.text = t; o.which = null; o.name = "replace by " + t.substr (0, 60); return o; }
static void finish (Ctx &c, Rec &r)
{
  if (r.shared)
  {
    bytes before = r.text ();
    int rv = mseh_serialize (r.m, &r.st); c.step ();
    if (!r.dirty) { if (r.text () != before && !r.none) check_text (r, "serialising an unchanged state"); }
    else if (rv != (int)r.m->extralength || rv <= 0) fail ("serialising returned %d, extra length %d", rv, r.m->extralength);
    check_text (r, "serialised state");
    int rv2 = mseh_serialize (r.m, &r.st); if (r.dirty && rv2 != rv) fail ("serialising again returned %d, before %d", rv2, rv);
    check_gets (c, r, true);
    mseh_free_parsestate (&r.st);
    if (r.st) fail ("parse state pointer not cleared");
    r.shared = false;
  }
  check_text (r, "end"); check_gets (c, r, true);
  c.state (mc::Hash ().s (r.none ? "none" : js::dump (r.doc)));
}
static const bytes INIT[] = {"", "{\"a\":1}", "{ \"a\" : { \"b\" : \"s\" , \"c\":{\"d\":1.5}} }", "{\"arr\":[1,\"x\"],\"b\":false}", "{\"FDSN\":{\"Event\":{\"Detection\":[{\"Type\":\"OLD\"}]}},\"a\":null}", "{}", "[1,2]", "5"};
int main (int argc, char **argv)
{
  setup ();
  mc::Config cfg; cfg.property = "P16";
  const char *tv = getenv ("VERIF_TIER"); bool th = tv && !strcmp (tv, "thorough");
  cfg.rule = "an independent JSON document model (own parser, RFC 6901 pointers, RFC 7386 merge patch) executes the same operations; return codes, the stored text parsed again, every pointer x type read, untouched bytes after failures, length field, and memory balance are compared after every operation, operating directly and through a shared parse state";
  cfg.assumptions = {"setting a pointer that addresses a missing array element is refused (only objects are created on the way)", "serialising a state in which nothing was set may return 0"};
  std::vector<Op> all = {S ("/a", J::N (1.5)), S ("/a", J::I (5)), S ("/a", J::S ("str")), S ("/a", J::B (true)), S ("/a/b", J::I (-7)), S ("/a/c/d", J::N (2)), S ("/b", J::S ("q\"\\\n\xc3\xa9\xe2\x82\xac")), S ("/b", J::B (false)), S ("/arr/0", J::I (9)), S ("/arr/1", J::S ("")), S ("/arr/-", J::I (3)), S ("/arr/5", J::I (3)), S ("/arr/00", J::I (3)), S ("/arr/0/x", J::I (1)),
                         S ("/a~1b", J::N (-0.25)), S ("/t~0", J::I (1)), S ("/q\"x", J::I (2)), S ("/bad~2", J::I (2)), S ("", J::I (1)), S ("x", J::I (1)), S ("/", J::I (1)), S ("//", J::I (1)), S ("/\xc3\xa9", J::I (INT64_MAX)), S ("/a", J::I (INT64_MIN)), S ("/b", J::N (1e300)), S ("/FDSN/Event/Detection", J::I (1)), S ("/FDSN/Event/Detection/0/Type", J::S ("NEW")),
                         M ("", "{\"a\":null}"), M ("", "{\"a\":{\"b\":null,\"n\":1}}"), M ("/a", "{\"b\":2,\"z\":{\"y\":null}}"), M ("", "{\"b\":[1,null],\"arr\":null}"), M ("/a", "5"), M ("/a", "null"), M ("", "{bad"), M ("", "{}"), M ("", ""), M ("/arr/0", "{\"k\":1}"), M ("x", "{}"), M ("", "[]"),
                         X ('E', "", 0), X ('E', "", 1), X ('C', ""), X ('T', ""), X ('Z', ""), X ('E', "/arr", 1), X ('C', "/a"), X ('T', "/a/c/list"), X ('Z', "x"),
                         R ("", 1), R (" { \"z\" : [ 1 , 2.0 , \"\\u00e9\" ] } "), R ("{\"a\":"), R (""), R ("5"), R ("{\"a\":{\"b\":\"t\"}}")};
  Op bad; bad.kind = 'Q'; bad.ptr = "/a"; bad.name = "set of unknown type"; all.push_back (bad);
  auto history = [=] (Ctx &c, const std::vector<Op> &ops, int D) {
    MemCheck mk;
    {
      const bytes &init = INIT[c.pick (8)]; bool sh = c.flip (), gets = sh ? c.flip () : true;
      Rec r (init, sh);
      for (int d = 0; d < D; d++)
      {
        int k = c.pick ((int)ops.size () + 1);
        if (k == 0) break;
        const Op &op = ops[k - 1];
        if (sh && op.kind == 'R') { finish (c, r); apply (c, r, op); r.shared = true; r.dirty = false; } // replacing is not for shared states
        else apply (c, r, op);
        if (gets) check_gets (c, r, d + 1 == D);
      }
      finish (c, r);
    }
    mk.done ("extra header history");
  };
  cfg.scenarios.push_back ({"pairs", [=] (Ctx &c) { history (c, all, 2); }, mc::fmt ("8 initial documents x all sequences of up to 2 of %zu operations x direct / shared / shared with reads between", all.size ())});
  std::vector<Op> some; for (int k : {1, 4, 5, 7, 8, 18, 27, 28, 29, 30, 39, 44, 45, 49}) some.push_back (all[k]);
  std::vector<Op> few; for (int k : {1, 4, 8, 28, 39, 44, 49}) few.push_back (all[k]);
  cfg.scenarios.push_back ({"triples", [=] (Ctx &c) { history (c, th ? all : some, 3); }, mc::fmt ("8 initial documents x all sequences of up to 3 of %zu operations x direct / shared / shared with reads", th ? all.size () : some.size ())});
  cfg.scenarios.push_back ({"longer", [=] (Ctx &c) { history (c, few, th ? 5 : 4); }, mc::fmt ("8 initial documents x all sequences of up to %d of %zu operations", th ? 5 : 4, few.size ())});
  cfg.scenarios.push_back ({"strings-and-lengths", [=] (Ctx &c) {
    static const bytes V[] = {"", "a", "ab", "abcdefgh", "\xc3\xa9\xc3\xa9", bytes (300, 'w')};
    const bytes &v = V[c.pick (6)]; int shared = c.flip (); MemCheck mk;
    { Rec r ("", shared); apply (c, r, S ("/k", J::S (v)));
      for (uint32_t n : {0u, 1u, 2u, 3u, 8u, 9u, 10u, 299u, 300u, 301u, 400u})
      {
        char *buf = (char *)malloc (n ? n : 1); memset (buf, 'Q', n);
        int rv = mseh_get_ptr_r (r.m, "/k", buf, 's', n, r.state ()); c.step ();
        if (rv) { free (buf); fail ("get of a string of %zu bytes into %u returned %d", v.size (), n, rv); }
        bytes got = n ? bytes (buf, strnlen (buf, n)) : bytes (); bool okk = n == 0 || got == v.substr (0, n - 1);
        free (buf); if (!okk) fail ("string of %zu bytes read into %u bytes is '%s'", v.size (), n, got.c_str ());
      }
      finish (c, r); }
    mk.done ("string reads"); c.nontriv ();
  }, "strings of 6 lengths into exactly sized buffers of 11 sizes, direct and shared"});
  cfg.scenarios.push_back ({"size-limit", [=] (Ctx &c) {
    int shared = c.flip (), how = c.pick (4), delta = c.pick (7) - 3; bool esc = c.flip (); MemCheck mk;
    {
      Rec r (how == 2 ? "{\"a\":1}" : "", shared && how != 3);
      size_t over = how == 2 ? strlen ("{\"a\":1,\"k\":\"\"}") : how == 1 ? strlen ("{\"k\":\"\",\"n\":1}") : strlen ("{\"k\":\"\"}");
      size_t room = 65535 + delta - over; bytes v = esc ? bytes (room / 2, '"') + bytes (room % 2, 'x') : bytes (room, 'x');
      bytes tail = how == 1 ? "" : "";
      Op a = S ("/k", J::S (v)), b = S ("/n", J::I (1));
      if (how == 3) { bytes t = "{\"k\":" + js::dump (J::S (v)) + "}"; a = R (t); }
      bytes b0 = r.text ();
      auto run = [&] (const Op &op) { int rv; int64_t i = 1; if (op.kind == 's') rv = mseh_set_ptr_r (r.m, "/k", (void *)v.c_str (), 's', r.state ()); else if (op.kind == 'R') rv = mseh_replace (r.m, (char *)op.text.c_str ()); else rv = mseh_set_ptr_r (r.m, "/n", &i, 'i', r.state ()); c.step (); return rv; };
      int rv = run (a); if (rv >= 0 && how == 1) { if (!shared) b0 = r.text (); rv = run (b); }
      if (r.shared) { if (rv < 0) fail ("setting in the shared state returned %d", rv); rv = mseh_serialize (r.m, &r.st); c.step (); if (rv > 0) rv = rv == r.m->extralength ? 0 : -99; }
      else if (how == 3 && rv > 0) rv = rv == r.m->extralength ? 0 : -99;
      bool fits = delta <= 0;
      if (fits ? rv != 0 : rv >= 0) fail ("headers of %d bytes: %d", 65535 + delta, rv);
      if (!fits && r.text () != b0) fail ("headers over the limit were refused but the stored headers changed (%zu bytes)", r.text ().size ());
      if (fits)
      {
        if (r.m->extralength != 65535 + delta) fail ("headers of %d bytes have a length of %d", 65535 + delta, r.m->extralength);
        J g; if (!js::parse (r.text (), g) || !g.key ("k") || g.key ("k")->s != v) fail ("large headers do not read back");
      }
      c.state (mc::Hash ().u (shared).u (how).i (delta).u (esc)); c.nontriv ();
    }
    mk.done ("size limit");
  }, "set, set twice, set beside another, replace to total lengths 65532..65538, plain and escaped, direct and shared"});
  cfg.scenarios.push_back ({"unwritable-values", [=] (Ctx &c) {
    MemCheck mk;
    {
      const bytes &init = INIT[c.pick (6)]; bool sh = c.flip (); int what = c.pick (4); Rec r (init, sh); bytes b0 = r.text ();
      double d = what == 0 ? NAN : what == 1 ? INFINITY : -INFINITY; const char *s = "a\xff\xfe";
      int rv = what < 3 ? mseh_set_ptr_r (r.m, "/v", &d, 'n', r.state ()) : mseh_set_ptr_r (r.m, "/v", (void *)s, 's', r.state ());
      if (sh && rv == 0) rv = mseh_serialize (r.m, &r.st);
      if (rv >= 0) fail ("a value JSON cannot hold was stored: %s", r.text ().c_str ());
      if (r.text () != b0) fail ("a value JSON cannot hold was refused but the headers changed");
      c.step (2);
      if (sh) { mseh_free_parsestate (&r.st); }
      apply (c, r, S ("/v", J::I (1))); finish (c, r);
    }
    mk.done ("unwritable values"); c.nontriv ();
  }, "not-a-number, infinities, malformed UTF-8; direct and shared; then a valid set"});
  cfg.scenarios.push_back ({"invalid-headers", [=] (Ctx &c) {
    static const bytes B[] = {"{", "{\"a\":1", "xyz", "{\"a\":1}}", "\"", "{\"a\":\"\xff\"}", bytes ("{\"a\":1}\0", 8), " "};
    MemCheck mk; MS3Record *m = msr3_init (NULL); const bytes &b = B[c.pick (8)];
    m->extra = (char *)libmseed_memory.malloc (b.size ()); memcpy (m->extra, b.data (), b.size ()); m->extralength = b.size ();
    LM_PARSED_JSON *st = nullptr; LM_PARSED_JSON **ps = c.flip () ? &st : nullptr; int what = c.pick (4); int64_t i = 1; int rv;
    for (int k = 0; k < 2; k++)
    {
      if (what == 0) rv = mseh_get_ptr_r (m, "/a", &i, 'i', 0, ps);
      else if (what == 1) rv = mseh_set_ptr_r (m, "/a", &i, 'i', ps);
      else if (what == 2) rv = mseh_set_ptr_r (m, "/a", (void *)"{}", 'M', ps);
      else { MSEHEventDetection e = ev (0); rv = mseh_add_event_detection_r (m, NULL, &e, ps); }
      c.step ();
      if (rv >= 0) fail ("operation %d on invalid headers returned %d", what, rv);
      if (bytes (m->extra, m->extralength) != b) fail ("operation %d on invalid headers changed them", what);
    }
    mseh_free_parsestate (&st); msr3_free (&m); mk.done ("invalid headers"); c.nontriv (); c.state (mc::Hash ().s (b).u (what).u (ps != 0));
  }, "8 texts that are not one JSON document x get, set, merge, append x direct / shared"});
  cfg.scenarios.push_back ({"numbers", [=] (Ctx &c) {
    static const char *T[] = {"0", "-0", "1", "-1", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1.0", "-0.0", "0.1", "1e2", "1E-2", "4.9e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "123456789012345678901234567890.5", "1e22", "1e23"};
    static const double D[] = {0.0, -0.0, 0.1, 1.0 / 3, 4.9e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 1e22, 1e23, 9007199254740993.0, 9223372036854775807.0, 18446744073709551615.0, 5e-7, 100.0};
    static const int64_t N[] = {0, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 9007199254740993LL, 4294967296LL, -2147483649LL};
    int how = c.pick (3); bool sh = c.flip (); int touch = c.pick (3); MemCheck mk;
    {
      Rec r (how == 0 ? bytes ("{\"a\":") + T[c.pick ((int)(sizeof T / sizeof *T))] + ",\"b\":0}" : "{\"b\":0}", sh);
      if (how == 1) apply (c, r, S ("/a", J::N (D[c.pick ((int)(sizeof D / sizeof *D))])));
      if (how == 2) apply (c, r, S ("/a", J::I (N[c.pick ((int)(sizeof N / sizeof *N))])));
      if (touch == 1) apply (c, r, S ("/b", J::I (1)));
      if (touch == 2) apply (c, r, M ("", "{\"b\":null}"));
      check_gets (c, r, true); finish (c, r);
    }
    mk.done ("numbers"); c.nontriv ();
  }, "24 texts of numbers at the limits of 64-bit integers and doubles, 14 doubles and 9 integers set; then nothing, a set or a merge beside; every type read; direct and shared"});
  cfg.scenarios.push_back ({"added-structures", [=] (Ctx &c) {
    struct F { const char *key; char k; size_t off, len; };
#define FS(st, f, key) {key, 's', offsetof (st, f), sizeof (((st *)0)->f)}
#define FN(st, f, key, k) {key, k, offsetof (st, f), 0}
    static const std::vector<F> FF[4] = {
      {FS (MSEHEventDetection, type, "Type"), FN (MSEHEventDetection, signalamplitude, "SignalAmplitude", 'd'), FN (MSEHEventDetection, signalperiod, "SignalPeriod", 'd'), FN (MSEHEventDetection, backgroundestimate, "BackgroundEstimate", 'd'), FS (MSEHEventDetection, wave, "Wave"), FS (MSEHEventDetection, units, "Units"), FN (MSEHEventDetection, onsettime, "OnsetTime", 't'), FN (MSEHEventDetection, medsnr, "MEDSNR", 'm'), FN (MSEHEventDetection, medlookback, "MEDLookback", 'i'), FN (MSEHEventDetection, medpickalgorithm, "MEDPickAlgorithm", 'i'), FS (MSEHEventDetection, detector, "Detector")},
      {FS (MSEHCalibration, type, "Type"), FN (MSEHCalibration, begintime, "BeginTime", 't'), FN (MSEHCalibration, endtime, "EndTime", 't'), FN (MSEHCalibration, steps, "Steps", 'i'), FN (MSEHCalibration, firstpulsepositive, "StepFirstPulsePositive", 'b'), FN (MSEHCalibration, alternatesign, "StepAlternateSign", 'b'), FS (MSEHCalibration, trigger, "Trigger"), FN (MSEHCalibration, continued, "Continued", 'b'), FN (MSEHCalibration, amplitude, "Amplitude", 'd'), FS (MSEHCalibration, inputunits, "InputUnits"), FS (MSEHCalibration, amplituderange, "AmplitudeRange"), FN (MSEHCalibration, duration, "Duration", 'd'), FN (MSEHCalibration, sineperiod, "SinePeriod", 'd'), FN (MSEHCalibration, stepbetween, "StepBetween", 'd'), FS (MSEHCalibration, inputchannel, "InputChannel"), FN (MSEHCalibration, refamplitude, "ReferenceAmplitude", 'd'), FS (MSEHCalibration, coupling, "Coupling"), FS (MSEHCalibration, rolloff, "Rolloff"), FS (MSEHCalibration, noise, "Noise")},
      {FN (MSEHTimingException, time, "Time", 't'), FN (MSEHTimingException, vcocorrection, "VCOCorrection", 'f'), FN (MSEHTimingException, receptionquality, "ReceptionQuality", 'i'), FN (MSEHTimingException, count, "Count", 'u'), FS (MSEHTimingException, type, "Type"), FS (MSEHTimingException, clockstatus, "ClockStatus")},
      {FS (MSEHRecenter, type, "Type"), FN (MSEHRecenter, begintime, "BeginTime", 't'), FN (MSEHRecenter, endtime, "EndTime", 't'), FS (MSEHRecenter, trigger, "Trigger")}};
#undef FS
#undef FN
    static const size_t SZ[] = {sizeof (MSEHEventDetection), sizeof (MSEHCalibration), sizeof (MSEHTimingException), sizeof (MSEHRecenter)};
    static const char *DEF[] = {"/FDSN/Event/Detection", "/FDSN/Calibration/Sequence", "/FDSN/Time/Exception", "/FDSN/Recenter/Sequence"};
    // number of values of a kind; value 0 is the absent one of the base, value 1 the present one
    auto nval = [] (char k) { switch (k) { case 's': return 5; case 'd': return 7; case 'f': return 5; case 't': return 6; case 'i': return 6; case 'b': return 4; case 'u': return 4; default: return 4; } };
    auto put = [] (std::vector<char> &st, J &o, const F &f, int v) {
      char *p = st.data () + f.off;
      switch (f.k)
      {
      case 's': { bytes s = v == 0 ? bytes () : v == 1 ? bytes (f.key).substr (0, 8) : v == 2 ? bytes (f.len - 1, 'L') : v == 3 ? bytes ("\"\\/\t") : bytes ("0"); memset (p, 'Z', f.len); memcpy (p, s.c_str (), s.size () + 1); if (s.size ()) o.put (f.key, J::S (s)); break; }
      case 'd': { static const double D[] = {0.0, 2.5, -1e-300, INFINITY, NAN, -0.0, 3.0}; memcpy (p, &D[v], 8); if (std::isfinite (D[v]) && D[v] != 0) o.put (f.key, J::N (D[v])); break; }
      case 'f': { static const float D[] = {-1.0f, 0.5f, 0.0f, NAN, 100.0f}; memcpy (p, &D[v], 4); if (D[v] >= 0) o.put (f.key, J::N (D[v])); break; }
      case 't': { static const nstime_t D[] = {NSTUNSET, 1577836800123456789LL, 0, -1, NSTERROR, 4102444799500000000LL}; static const char *S_[] = {"", "2020-01-01T00:00:00.123456789Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999999999Z", "", "2099-12-31T23:59:59.500000Z"}; memcpy (p, &D[v], 8); if (*S_[v]) o.put (f.key, J::S (S_[v])); break; }
      case 'i': { static const int D[] = {-1, 3, 0, INT32_MAX, -5, 1}; memcpy (p, &D[v], 4); if (D[v] >= 0) o.put (f.key, J::I (D[v])); break; }
      case 'b': { static const int D[] = {-1, 1, 0, 2}; memcpy (p, &D[v], 4); if (D[v] >= 0) o.put (f.key, J::B (D[v] != 0)); break; }
      case 'u': { static const uint32_t D[] = {0, 7, UINT32_MAX, 1}; memcpy (p, &D[v], 4); if (D[v]) o.put (f.key, J::I (D[v])); break; }
      case 'm': { static const uint8_t D[][6] = {{0, 0, 0, 0, 0, 0}, {1, 2, 3, 4, 5, 255}, {0, 0, 0, 0, 0, 1}, {200, 0, 0, 0, 0, 0}}; memcpy (p, D[v], 6); if (v) { J a = J::A (); for (int i = 0; i < 6; i++) a.a.push_back (J::I (D[v][i])); o.put (f.key, a); } break; }
      }
    };
    int kind = c.pick (4), base = c.flip () ? 1 : 0, ways = c.pick (4); const std::vector<F> &ff = FF[kind]; int n = (int)ff.size ();
    int x = c.pick (n), y = c.pick (n); if (y < x) throw mc::PruneEx ();
    std::vector<char> st (SZ[kind]); J o = J::O ();
    int vx = c.pick (nval (ff[x].k)), vy = x == y ? vx : c.pick (nval (ff[y].k));
    for (int i = 0; i < n; i++) put (st, o, ff[i], i == x ? vx : i == y ? vy : base);
    MemCheck mk;
    {
      Rec r ("", ways & 1); const char *ptr = ways & 2 ? "/x/list" : nullptr;
      for (int k = 0; k < 2; k++)
      {
        std::vector<char> copy = st; void *q = copy.data (); LM_PARSED_JSON **ps = r.state ();
        int rv = kind == 0 ? mseh_add_event_detection_r (r.m, ptr, (MSEHEventDetection *)q, ps) : kind == 1 ? mseh_add_calibration_r (r.m, ptr, (MSEHCalibration *)q, ps) : kind == 2 ? mseh_add_timing_exception_r (r.m, ptr, (MSEHTimingException *)q, ps) : mseh_add_recenter_r (r.m, ptr, (MSEHRecenter *)q, ps);
        c.step ();
        if (rv) fail ("adding %s returned %d", js::dump (o).c_str (), rv);
        if (copy != st) fail ("adding changed the caller's structure");
        memset (copy.data (), 0x55, copy.size ()); // the headers keep their own copy
        if (r.none) { r.doc = J::O (); r.none = false; }
        bytes p = ptr ? ptr : DEF[kind]; J *a = js::get (r.doc, p);
        if (!a) { J na = J::A (); js::set (r.doc, p, na); a = js::get (r.doc, p); }
        a->a.push_back (o); r.dirty = true;
        if (!r.shared) check_text (r, "an added structure");
      }
      if (r.shared) { if (mseh_serialize (r.m, &r.st) <= 0) fail ("serialising added structures"); check_text (r, "added structures, serialised"); mseh_free_parsestate (&r.st); }
      c.state (mc::Hash ().s (js::dump (r.doc)));
    }
    mk.done ("added structures"); c.nontriv ();
  }, "event detections, calibrations, timing exceptions, recenters: all fields absent or all present, every pair of fields x every pair of their values (absent markers, zero, extremes, full-length and special strings, non-finite), added twice, default and given place, direct and shared"});
  return mc::run (argc, argv, cfg);
}
