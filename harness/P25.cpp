// P25: copies are independent and everything allocated is released.
#include "world.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);
using namespace mc; using namespace ref; using namespace tl; using namespace world;

// an allocator whose blocks the C library does not know: anything released with the wrong function is caught
namespace own {
static int64_t live = 0; static std::set<void *> blocks;
static const uint64_t MAGIC = 0x4f574e4d454d0001ULL;
static void *alloc (size_t n) { char *p = (char *)malloc (n + 32); if (!p) return NULL; memcpy (p, &MAGIC, 8); memcpy (p + 8, &n, 8); live++; blocks.insert (p + 32); return p + 32; }
static void release (void *q) { if (!q) return; if (!blocks.erase (q)) fail ("memory released that the allocator did not hand out, or twice"); live--; free ((char *)q - 32); }
static void *resize (void *q, size_t n)
{
  if (!q) return alloc (n);
  if (!blocks.count (q)) fail ("memory resized that the allocator did not hand out");
  size_t o; memcpy (&o, (char *)q - 24, 8); void *p = alloc (n); if (p) { memcpy (p, q, std::min (n, o)); release (q); } return p;
}
}
struct World
{
  MS3Record *m[2] = {NULL, NULL}; MS3TraceList *l = NULL; MS3Selections *sel = NULL; MS3FileParam *fp = NULL; LM_PARSED_JSON *ps = NULL; int psof = 0; MSLogParam *lp = NULL;
  std::shared_ptr<Buf> raw[2], lbuf; std::unique_ptr<Dir> dir; bytes path; bool unread[2] = {false, false}; bool held = false, listheld = false;
  bool undecoded = false, converted = false;
  void endstate () { mseh_free_parsestate (&ps); }
  ~World () { mseh_free_parsestate (&ps); for (auto &r : m) msr3_free (&r); mstl3_free (&l, 1); if (sel) ms3_freeselections (sel); if (fp) { MS3Record *x = NULL; ms3_readmsr_r (&fp, &x, NULL, 0, 0); } if (lp) { ms_rlog_free (lp); libmseed_memory.free (lp); } }
  void finish ()
  {
    endstate (); for (auto &r : m) msr3_free (&r);
    if (m[0] || m[1]) fail ("pointer left after release");
    mstl3_free (&l, 1); if (l) fail ("pointer left after release");
    if (sel) ms3_freeselections (sel); sel = NULL;
    if (fp) { ms3_readmsr_r (&fp, &m[1], NULL, 0, 0); if (fp) fail ("pointer left after release"); }
    if (lp) { ms_rlog_free (lp); libmseed_memory.free (lp); lp = NULL; }
  }
  const char *file () { if (!dir) { dir.reset (new Dir); path = dir->at ("in"); bytes b; for (int i = 0; i < 3; i++) b += form (i == 1 ? F2BLK : F3X, rec (i + 1, 20, i * 20)); spill (path, b); } return path.c_str (); }
};
enum { PARSE0, PARSE1, PARSE2, PARSE3, PARSERAW, UNPACK, DUPAB, DUPABX, DUPBA, CHANGEA, CHANGEB, HEADA, HEADAST, REPLACEA, FREEA, FREEB, RESIZEA, INITA, ADDA, ADDAREC, ADDB, READBUF, READFILE, UNPACKLIST, CONVERT, PACKLIST, KEEPLIST, FREELIST, STEP, STEPEND, SELECT, SELFILE, FREESEL, PACKA, WRITEA, WRITEL, LOGP, NOPS };
static const char *NAMES[] = {"parse v3", "parse v2 with blockettes", "parse text", "parse Steim", "parse without samples", "decode samples", "duplicate A to B", "duplicate A to B without samples", "duplicate B to A", "change A", "change B", "set header of A", "set header of A with a parse state", "replace headers of A", "free A", "free B", "resize A", "reset A", "add A", "add A with record list", "add B", "read buffer into list", "read file into list", "decode record lists", "convert list", "pack list", "pack list and keep it", "free list", "read record from file", "end reading", "select", "read selection file", "free selections", "pack A", "write A", "write list", "log"};
static void handler (char *r, int n, void *) { volatile char x = r[n - 1]; (void)x; }
static void change (MS3Record *m, int by)
{
  m->sid[0] = 'G'; m->flags ^= 4; m->starttime += by; m->samprate += by; m->pubversion += by; m->reclen += by; m->encoding = 3;
  if (m->extralength) m->extra[0] = '['; if (m->extralength) m->extra[m->extralength - 1] = ']';
  size_t n = m->numsamples > 0 && m->datasamples ? (size_t)m->numsamples * ms_samplesize (m->sampletype) : 0; for (size_t i = 0; i < n; i++) ((char *)m->datasamples)[i] ^= by;
}
// runs one operation; A, B, list, selections it may change are returned as a mask (1 A, 2 B, 4 list, 8 selections); -1: not applicable
static int apply (World &w, int op)
{
  MS3Record *&A = w.m[0], *&B = w.m[1];
  auto parse = [&] (int f, uint32_t flags) {
    if (w.ps) return -1;
    bytes b = form (f, rec (f + 1, 20, f * 20)); std::shared_ptr<Buf> q (new Buf (b));
    if (msr3_parse (q->p, b.size (), &A, flags, 0)) fail ("parse failed");
    w.raw[0] = flags ? NULL : q; w.unread[0] = !flags; if (flags) A->record = NULL; // the bytes are gone when samples were decoded
    return 1;
  };
  auto ok = [&] (bool x) { if (!x) fail ("%s failed", NAMES[op]); };
  switch (op)
  {
  case PARSE0: return parse (F3X, MSF_UNPACKDATA);
  case PARSE1: return parse (F2BLK, MSF_UNPACKDATA);
  case PARSE2: return parse (F3T, MSF_UNPACKDATA);
  case PARSE3: return parse (F3ST, MSF_UNPACKDATA);
  case PARSERAW: return parse (F3X, 0);
  case UNPACK: if (!A || !w.unread[0]) return -1; w.unread[0] = false; if (msr3_unpack_data (A, 0) != A->samplecnt) return 1; return 1;
  case DUPAB: case DUPABX: { if (!A) return -1; msr3_free (&B); B = msr3_duplicate (A, op == DUPAB); ok (B); w.raw[1] = w.raw[0]; w.unread[1] = w.unread[0]; return 2; }
  case DUPBA: { if (!B || w.ps) return -1; msr3_free (&A); A = msr3_duplicate (B, 1); ok (A); w.raw[0] = w.raw[1]; w.unread[0] = w.unread[1]; return 1; }
  case CHANGEA: if (!A || w.ps) return -1; change (A, 1); return 1;
  case CHANGEB: if (!B) return -1; change (B, 2); return 2;
  case HEADA: { if (!A || w.ps) return -1; int64_t v = 77; mseh_set_ptr_r (A, "/set/by/test", &v, 'i', NULL); return 1; }
  case HEADAST: { if (!A) return -1; mseh_set_ptr_r (A, "/later", (void *)"text", 's', &w.ps); if (w.ps) mseh_serialize (A, &w.ps); return 1; }
  case REPLACEA: if (!A || w.ps) return -1; ok (mseh_replace (A, (char *)"{\"new\":[1,2,3]}") >= 0); return 1;
  case FREEA: w.endstate (); msr3_free (&A); if (A) fail ("pointer left after release"); return 1;
  case FREEB: msr3_free (&B); return 2;
  case RESIZEA: if (!A || !libmseed_prealloc_block_size) return -1; ok (msr3_resize_buffer (A) == 0); return 0;
  case INITA: if (!A || w.ps) return -1; ok (msr3_init (A) == A); w.raw[0] = NULL; w.unread[0] = false; return 1;
  case ADDA: case ADDAREC: case ADDB: {
    MS3Record *x = op == ADDB ? B : A; if (!x || x->samplecnt < 0 || (x->numsamples > 0 && x->numsamples != x->samplecnt)) return -1;
    if (!w.l) ok ((w.l = mstl3_init (NULL)));
    MS3RecordPtr *rp = NULL;
    MS3TraceSeg *s = op == ADDAREC ? mstl3_addmsr_recordptr (w.l, x, &rp, 0, 1, 0, NULL) : mstl3_addmsr (w.l, x, 0, 1, 0, NULL);
    if (s && !s->prvtptr) { s->prvtptr = libmseed_memory.malloc (5); }
    if (rp) { rp->prvtptr = libmseed_memory.malloc (7); w.undecoded = true; }
    for (MS3TraceID *id = w.l->traces.next[0]; id; id = id->next[0]) if (!id->prvtptr) id->prvtptr = libmseed_memory.malloc (3);
    return 4; }
  case READBUF: { bytes b; for (int i = 0; i < 3; i++) b += form (i == 1 ? F2ST : F3ST, rec (i + 11, 20, 100 + i * 20)); if (w.lbuf) return -1; w.lbuf.reset (new Buf (b)); ok (mstl3_readbuffer (&w.l, w.lbuf->p, w.lbuf->n, 0, MSF_RECORDLIST | MSF_SKIPNOTDATA, NULL, 0) == 3); return 4; }
  case READFILE: ok (ms3_readtracelist (&w.l, w.file (), NULL, 0, MSF_UNPACKDATA, 0) == 0 || w.converted); return 4;
  case UNPACKLIST: if (!w.l || w.undecoded) return -1; for (MS3TraceID *id = w.l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *s = id->first; s; s = s->next) if (s->recordlist && !s->datasamples) mstl3_unpack_recordlist (id, s, NULL, 0, 0); return 4;
  case CONVERT: if (!w.l) return -1; w.converted = true; /* records of another type are refused from here on */ for (MS3TraceID *id = w.l->traces.next[0]; id; id = id->next[0]) for (MS3TraceSeg *s = id->first; s; s = s->next) if (s->numsamples) mstl3_convertsamples (s, s->sampletype == 'd' ? 'i' : 'd', 1); return 4;
  case PACKLIST: case KEEPLIST: { if (!w.l) return -1; int64_t n; mstl3_pack (w.l, handler, NULL, 256, 11, &n, op == PACKLIST ? MSF_FLUSHDATA : MSF_FLUSHDATA | MSF_MAINTAINMSTL, 0, NULL); return op == PACKLIST ? 4 : 0; }
  case FREELIST: mstl3_free (&w.l, 1); w.undecoded = w.converted = false; w.lbuf = NULL; return 4;
  case STEP: { int rc = ms3_readmsr_r (&w.fp, &B, w.file (), MSF_UNPACKDATA, 0); if (rc != MS_NOERROR && B) fail ("record left at the end of a file"); if (rc != MS_NOERROR && rc != MS_ENDOFFILE) fail ("reading ended with %d", rc); w.raw[1] = NULL; w.unread[1] = false; if (B) B->record = NULL; return 2; }
  case STEPEND: ms3_readmsr_r (&w.fp, &B, NULL, 0, 0); if (w.fp) fail ("reading state left"); return 2;
  case SELECT: ok (ms3_addselect (&w.sel, w.sel ? "FDSN:XX*" : "*", T0, NSTUNSET, 0) == 0); return 8;
  case SELFILE: { if (!w.dir) w.file (); bytes p = w.dir->at ("sel"); spill (p, "FDSN:A*\nFDSN:B* 2020-01-01\n"); ok (ms3_readselectionsfile (&w.sel, p.c_str ()) == 2); return 8; }
  case FREESEL: ms3_freeselections (w.sel); w.sel = NULL; return 8;
  case PACKA: { if (!A) return -1; int64_t n; msr3_pack (A, handler, NULL, &n, MSF_FLUSHDATA, 0); return 0; }
  case WRITEA: { if (!A) return -1; w.file (); msr3_writemseed (A, w.dir->at ("out").c_str (), 1, MSF_FLUSHDATA, 0); return 0; }
  case WRITEL: { if (!w.l) return -1; w.file (); mstl3_writemseed (w.l, w.dir->at ("out").c_str (), 1, 512, 11, MSF_FLUSHDATA, 0); return 0; }
  case LOGP: { bool fresh = !w.lp; if (fresh) ok ((w.lp = ms_rloginit_l (NULL, log_sink, "", log_esink, "", 2)) != NULL); for (int i = 0; i < 3; i++) ms_rlog_l (w.lp, "f", 1, "message %d", i); if (!fresh) ms_rlog_emit (w.lp, 1, 1); return 0; }
  }
  return -1;
}
typedef std::function<int (int)> Next; // the i-th operation, -1 at the end
static void history (const Next &next, Ctx *c)
{
  World w; bytes a, b, l, s;
  for (int i = 0, op; (op = next (i)) >= 0; i++)
  {
    bytes a0 = dump (w.m[0]), b0 = dump (w.m[1]), l0 = dump (w.l), s0 = dump (w.sel);
    int mask = apply (w, op); if (mask < 0) throw PruneEx ();
    if (c) { c->step (); c->say ("%s", NAMES[op]); }
    a = dump (w.m[0]); b = dump (w.m[1]); l = dump (w.l); s = dump (w.sel);
    if (!(mask & 1) && a != a0) fail ("%s changed record A", NAMES[op]);
    if (!(mask & 2) && b != b0) fail ("%s changed record B", NAMES[op]);
    if (!(mask & 4) && l != l0) fail ("%s changed the trace list", NAMES[op]);
    if (!(mask & 8) && s != s0) fail ("%s changed the selections", NAMES[op]);
    if ((op == DUPAB || op == DUPBA) && a != b) fail ("%s: copy differs from its source:\n%s\n%s", NAMES[op], a.c_str (), b.c_str ());
    if (op == DUPABX) { if (w.m[1]->numsamples || w.m[1]->datasamples) fail ("samples copied without request"); if (w.m[0]->extralength != w.m[1]->extralength || (w.m[0]->extralength && memcmp (w.m[0]->extra, w.m[1]->extra, w.m[0]->extralength))) fail ("extra headers differ"); }
    if ((op == DUPAB || op == DUPABX || op == DUPBA) && ((w.m[0]->extra && w.m[0]->extra == w.m[1]->extra) || (w.m[0]->datasamples && w.m[0]->datasamples == w.m[1]->datasamples))) fail ("copy shares memory with its source");
  }
  if (c) c->state (Hash ().s (a).s (b).s (l).s (s));
  w.finish ();
}

int main (int argc, char **argv)
{
  setup ();
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P25";
  cfg.rule = "every history of the stated depth over the operations; after each operation everything it does not concern is compared with its state before, at the end all is released through the documented calls";
  cfg.assumptions = {"memory of the C library's own objects (streams) is its business; open files are counted"};

  for (int mode = 0; mode < 3; mode++)
  {
    int depth = thorough ? 4 + (mode == 0) : 3 + (mode == 0);
    cfg.scenarios.push_back ({mode == 0 ? "replaced" : mode == 1 ? "replaced-blocks" : "default", [=] (Ctx &c) {
      libmseed_prealloc_block_size = mode == 1 ? 256 : 0;
      if (mode < 2) { libmseed_memory.malloc = own::alloc; libmseed_memory.realloc = own::resize; libmseed_memory.free = own::release; }
      else { libmseed_memory.malloc = malloc; libmseed_memory.realloc = realloc; libmseed_memory.free = free; }
      std::vector<int> ops;
      Next pick = [&] (int i) { if (i >= depth) return -1; ops.push_back (c.pick (NOPS)); return ops.back (); }, again = [&] (int i) { return i < depth ? ops[i] : -1; };
      int low = lowfd (); int64_t l0 = own::live;
      history (pick, &c); c.nontriv ();
      if (lowfd () != low) fail ("a file is left open");
      if (own::live != l0) fail ("%lld allocation(s) not released", (long long)(own::live - l0));
      if (mode == 2)
      {
        // the second and third run of the same history find and leave the same amount of memory in use
        history (again, NULL);
        size_t before = __sanitizer_get_current_allocated_bytes (); history (again, NULL); size_t after = __sanitizer_get_current_allocated_bytes ();
        if (before != after) fail ("%lld bytes not released with the default allocator", (long long)(after - before));
      }
    }, fmt ("every sequence of %d out of %d operations on two records, a trace list, selections, a file, a parse state and log parameters; %s", depth, (int)NOPS, mode == 0 ? "replaced allocator" : mode == 1 ? "replaced allocator with block allocation" : "default allocator")});
  }
  // longer histories around copies
  cfg.scenarios.push_back ({"copies", [=] (Ctx &c) {
    static const int OPS[] = {DUPAB, DUPABX, DUPBA, CHANGEA, CHANGEB, HEADA, HEADAST, REPLACEA, FREEA, FREEB, RESIZEA, UNPACK, ADDA, ADDB, PARSE1, INITA};
    libmseed_prealloc_block_size = c.pick (2) ? 256 : 0;
    libmseed_memory.malloc = own::alloc; libmseed_memory.realloc = own::resize; libmseed_memory.free = own::release;
    Next ops = [&] (int i) { return i == 0 ? (int)c.pick (UNPACK) : i <= (thorough ? 6 : 4) ? OPS[c.pick (sizeof OPS / sizeof *OPS)] : -1; };
    int64_t l0 = own::live; history (ops, &c); c.nontriv (); if (own::live != l0) fail ("%lld allocation(s) not released", (long long)(own::live - l0));
  }, fmt ("a record of five forms and every sequence of %d of 16 operations around copies", thorough ? 6 : 4)});
  // histories around lists
  cfg.scenarios.push_back ({"lists", [=] (Ctx &c) {
    static const int OPS[] = {ADDA, ADDAREC, READBUF, READFILE, UNPACKLIST, CONVERT, PACKLIST, KEEPLIST, FREELIST, WRITEL, PARSE3, FREEA};
    libmseed_prealloc_block_size = c.pick (2) ? 256 : 0;
    libmseed_memory.malloc = own::alloc; libmseed_memory.realloc = own::resize; libmseed_memory.free = own::release;
    Next ops = [&] (int i) { return i == 0 ? (int)c.pick (4) : i <= (thorough ? 5 : 4) ? OPS[c.pick (sizeof OPS / sizeof *OPS)] : -1; };
    int64_t l0 = own::live; int low = lowfd (); history (ops, &c); c.nontriv (); if (own::live != l0) fail ("%lld allocation(s) not released", (long long)(own::live - l0)); if (lowfd () != low) fail ("a file is left open");
  }, fmt ("a record of four forms and every sequence of %d of 12 operations around trace lists", thorough ? 5 : 4)});

  // every field of a record survives copying
  cfg.scenarios.push_back ({"fields", [=] (Ctx &c) {
    libmseed_prealloc_block_size = 0; mem_install (true); MemCheck mk;
    char type = c.one<char> ({'i', 'f', 'd', 't', 0}); int n = c.one<int> ({0, 1, 2, 100}); int x = c.pick (4); bool stated = c.flip (), slack = c.flip (), dup = c.flip (); int ff = c.pick (6);
    MS3Record *m = msr3_init (NULL); memset (m->sid, 'S', LM_SIDLEN - 1); m->sid[LM_SIDLEN - 1] = 0;
    m->reclen = ff == 0 ? -1 : 4096 + ff; m->swapflag = ff; m->formatversion = 2 + ff % 2; m->flags = 0x55 + ff; m->starttime = ff == 1 ? NSTERROR + 3 : ff == 2 ? INT64_MAX : T0 + ff; m->samprate = ff == 3 ? -0.001 : 1e9 / (ff + 1); m->encoding = ff == 4 ? -1 : 11; m->pubversion = 255 - ff; m->samplecnt = n + ff; m->crc = 0xdeadbeef + ff; m->datalength = 0xfffffff0u + ff;
    static const char *XT[] = {"", "{}", "{\"a\":\"b\"}", "abc\0def"}; size_t XL[] = {0, 2, 9, 65535};
    if (XL[x]) { m->extra = (char *)libmseed_memory.malloc (XL[x]); memset (m->extra, 'x', XL[x]); memcpy (m->extra, XT[x], std::min<size_t> (XL[x], 7)); m->extralength = XL[x]; }
    m->sampletype = type; m->numsamples = n; size_t sz = (size_t)n * ms_samplesize (type);
    if (n) { size_t room = sz + (slack ? 1000 : 0); m->datasamples = libmseed_memory.malloc (room ? room : 1); for (size_t i = 0; i < room; i++) ((char *)m->datasamples)[i] = i * 7; if (stated) m->datasize = room; }
    MS3Record *d = msr3_duplicate (m, dup); if (!d) fail ("msr3_duplicate failed"); c.step (); c.nontriv ();
    if (memcmp (d->sid, m->sid, LM_SIDLEN) || d->reclen != m->reclen || d->swapflag != m->swapflag || d->formatversion != m->formatversion || d->flags != m->flags || d->starttime != m->starttime || d->samprate != m->samprate || d->encoding != m->encoding || d->pubversion != m->pubversion || d->samplecnt != m->samplecnt || d->crc != m->crc || d->datalength != m->datalength || d->sampletype != m->sampletype || d->record != m->record) fail ("a header field differs in the copy");
    if (d->extralength != m->extralength || (d->extralength && memcmp (d->extra, m->extra, XL[x]))) fail ("extra headers differ in the copy");
    if (!dup || !n) { if (d->numsamples || d->datasamples || d->datasize) fail ("samples in a copy without samples"); }
    else if (sz) { if (d->numsamples != n || !d->datasamples || d->datasize < sz || memcmp (d->datasamples, m->datasamples, sz)) fail ("samples differ in the copy"); }
    msr3_free (&m); // the copy outlives its source
    size_t got = d->numsamples ? (size_t)d->numsamples * ms_samplesize (type) : 0; unsigned sum = 0; for (size_t i = 0; i < got; i++) sum += ((unsigned char *)d->datasamples)[i]; for (size_t i = 0; i < d->extralength; i++) sum += d->extra[i];
    c.state (Hash ().u (sum).u (got)); msr3_free (&d); if (m || d) fail ("pointer left after release");
    mk.done ("copies"); if (mem ().bad) fail ("memory released twice");
  }, "every combination of sample type, count, stated and larger buffer sizes, extra headers to 65535 bytes and extreme header fields"});
  return mc::run (argc, argv, cfg);
}
