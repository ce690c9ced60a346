// P11: rolling-buffer packing emits every buffered sample exactly once and in order.
#include "tl.hpp"
using namespace tl;

static const nstime_t T0 = 1700000000000000000LL;
static bytes snapshot (MS3TraceList *l)
{
  bytes b = mc::fmt ("%u %llu ", l->numtraceids, (unsigned long long)l->prngstate);
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
  {
    b += mc::fmt ("[%s v%d %lld %lld %u %p", id->sid, id->pubversion, (long long)id->earliest, (long long)id->latest, id->numsegments, (void *)id);
    for (MS3TraceSeg *s = id->first; s; s = s->next)
    {
      b += mc::fmt ("(%lld %lld %.17g %lld %lld %c %p %zu %p", (long long)s->starttime, (long long)s->endtime, s->samprate, (long long)s->samplecnt, (long long)s->numsamples, s->sampletype, s->datasamples, (size_t)s->datasize, (void *)s->recordlist);
      if (s->datasamples) b.append ((char *)s->datasamples, (size_t)s->numsamples * ms_samplesize (s->sampletype));
      b += ")";
    }
    b += "]";
  }
  return b;
}
static bytes content (MS3TraceList *l) // what a failing or preserving call must keep, leaving capacities aside
{
  bytes b;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
    for (MS3TraceSeg *s = id->first; s; s = s->next) { b += mc::fmt ("%s(%lld %lld %lld)", id->sid, (long long)s->starttime, (long long)s->endtime, (long long)s->numsamples); if (s->numsamples) b.append ((char *)s->datasamples, (size_t)s->numsamples * ms_samplesize (s->sampletype)); }
  return b;
}

// Follows which samples were added, which were emitted and which remain
struct Model
{
  std::map<int, R> recs;
  std::map<int, std::vector<uint8_t>> out; // per record and sample: times emitted
  double slack = 0;                        // nanoseconds of rounding allowed, grows with packing calls at inexact rates
  bytes extra; int reclen = 256, version = 3; char type = 'i';
  std::map<int, int> chain; // the run of continuous records a record belongs to

  // one emitted record
  int64_t emitted (const bytes &b, std::map<bytes, std::pair<int, int>> &at)
  {
    MS3Record *m = NULL;
    int rc = msr3_parse (b.data (), b.size (), &m, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
    if (rc) fail ("an emitted record does not parse: %d", rc);
    struct F { MS3Record *m; ~F () { msr3_free (&m); } } f{m};
    if ((int)b.size () > reclen) fail ("record of %zu bytes, at most %d requested", b.size (), reclen);
    if (m->formatversion != version) fail ("record of version %d", m->formatversion);
    if (m->numsamples <= 0) fail ("a record without samples was emitted");
    if (bytes (m->extra ? m->extra : "", m->extralength) != extra && version == 3) fail ("extra headers are %.*s", m->extralength, m->extra);
    MS3TraceSeg s; memset (&s, 0, sizeof s); s.sampletype = m->sampletype; s.datasamples = m->datasamples;
    for (int64_t i = 0; i < m->numsamples; i++)
    {
      double x = sample_at (&s, i); int key = (int)(x / 1000), k = (int)(x - key * 1000.0);
      auto it = recs.find (key);
      if (it == recs.end () || k >= it->second.n) fail ("sample %g was never added", x);
      const R &r = it->second;
      if (r.sid != m->sid) fail ("sample of %s emitted for %s", r.sid.c_str (), m->sid);
      if (versions && version == 3 && m->pubversion != r.ver) fail ("sample of publication version %d emitted as version %d", r.ver, m->pubversion);
      if (m->sampletype != (type ? type : r.type)) fail ("samples of type %c", m->sampletype);
      if (out[key][k]++) fail ("sample %d of record %d emitted twice", k, key);
      if (m->samprate != r.rate && fabs (msr3_sampratehz (m) - r.hz ()) > 1e-9 * r.hz ()) fail ("rate %.17g", m->samprate);
      long double want = (long double)r.start + (long double)k * 1e9L / r.hz (), got = (long double)m->starttime + (long double)i * 1e9L / r.hz ();
      long double lim = slack + (version == 2 ? 500.0 : 0) + 1e-3L; // version 2 keeps microseconds
      if (got - want > lim || want - got > lim) fail ("sample %d of record %d emitted for a time %.1Lf ns off", k, key, got - want);
      // time order within every continuous run
      bytes run = r.sid + fmt (" %d", chain.count (key) ? chain[key] : 0);
      auto a = at.find (run);
      if (a != at.end () && inorder && std::make_pair (key, k) <= a->second) fail ("samples of %s emitted out of order", m->sid);
      at[run] = {key, k};
    }
    return m->numsamples;
  }
  bool inorder = true, versions = false;
  std::map<bytes, std::pair<int, int>> at;

  void add (MS3TraceList *l, const R &r)
  {
    Msr m (r); recs[r.key] = r; out[r.key].assign (r.n, 0);
    if (!mstl3_addmsr (l, m.m, versions, 1, 0, NULL)) fail ("record not added");
  }
  // what remains is exactly what was not emitted, at the right times
  void remains (MS3TraceList *l)
  {
    std::map<int, std::vector<uint8_t>> in; for (auto &p : recs) in[p.first].assign (p.second.n, 0);
    for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
      for (MS3TraceSeg *s = id->first; s; s = s->next)
      {
        if (s->samplecnt != s->numsamples) fail ("%lld samples counted, %lld held", (long long)s->samplecnt, (long long)s->numsamples);
        for (int64_t i = 0; i < s->numsamples; i++)
        {
          double x = sample_at (s, i); int key = (int)(x / 1000), k = (int)(x - key * 1000.0);
          auto it = recs.find (key); if (it == recs.end () || k >= it->second.n) fail ("sample %g in the list was never added", x);
          if (it->second.sid != id->sid) fail ("sample of %s in %s", it->second.sid.c_str (), id->sid);
          if (in[key][k]++) fail ("sample in the list twice");
          long double want = (long double)it->second.start + (long double)k * 1e9L / it->second.hz (), got = (long double)s->starttime + (long double)i * 1e9L / s->samprate;
          if (fabsl (got - want) > slack + 1e-3L) fail ("remaining sample %d of record %d (segment start %lld, index %lld) at a time %.1Lf ns off", k, key, (long long)s->starttime, (long long)i, got - want);
        }
      }
    for (auto &p : out) for (size_t k = 0; k < p.second.size (); k++) if (in[p.first][k] + p.second[k] != 1) fail ("sample %zu of record %d %s", k, p.first, in[p.first][k] ? "both emitted and kept" : "lost");
  }
  int64_t left () const { int64_t n = 0; for (auto &p : out) for (auto v : p.second) n += !v; return n; }
};

int main (int argc, char **argv)
{
  setup ();
  bool thorough = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg;
  cfg.property = "P11";
  cfg.rule = "every sequence of adding and packing operations over the stated alphabets and lengths; every emitted record is parsed and every remaining sample located after each operation";
  cfg.assumptions = {"that a packed record parses back to its samples is P01", "at rates whose sample period is not a whole number of nanoseconds each packing call may round the remaining start time by half a nanosecond"};
  struct Pk { Packed p; int64_t rc, n; };
  auto pack = [] (Ctx &c, Model &M, MS3TraceList *l, uint32_t flags, int enc) {
    Pk k; bytes before = flags & MSF_MAINTAINMSTL ? snapshot (l) : "";
    Buf ex (M.extra.size () ? M.extra + bytes (1, 0) : "");
    k.n = -5;
    k.rc = mstl3_pack (l, pack_handler, &k.p, M.reclen, enc, &k.n, flags, 0, M.extra.size () ? ex.p : NULL); c.step ();
    if (!ex.same ()) fail ("the extra headers of the caller were changed");
    if (flags & MSF_MAINTAINMSTL && snapshot (l) != before) fail ("the list was changed although asked to preserve it");
    if (k.rc >= 0 && k.rc != (int64_t)k.p.recs.size ()) fail ("%lld records reported, %zu emitted", (long long)k.rc, k.p.recs.size ());
    return k;
  };
  auto after = [] (Model &M, MS3TraceList *l, Pk &k, uint32_t flags) {
    int64_t sum = 0;
    if (flags & MSF_MAINTAINMSTL)
    {
      Model T = M; // emitted for a copy of the account only
      for (auto &b : k.p.recs) sum += T.emitted (b, T.at);
      if (k.n != sum) fail ("%lld samples reported, %lld emitted", (long long)k.n, (long long)sum);
      if (k.rc >= 0 && flags & MSF_FLUSHDATA && T.left ()) fail ("%lld samples not emitted by a flush", (long long)T.left ());
      M.remains (l); return;
    }
    for (auto &b : k.p.recs) sum += M.emitted (b, M.at);
    if (k.n != sum) fail ("%lld samples reported, %lld emitted", (long long)k.n, (long long)sum);
    M.remains (l);
    if (k.rc >= 0 && flags & MSF_FLUSHDATA && M.left ()) fail ("%lld samples left after a flush", (long long)M.left ());
  };

  // ---- any interleaving of appending and packing
  static const struct { char type; int enc; double rate; int ver; } FORMS[] = {
    {'i', DE_INT32, 100.0, 3}, {'i', DE_STEIM2, 1.0, 3}, {'i', DE_STEIM1, -10.0, 3}, {'i', -1, 3.0, 3}, {'f', -1, 40.0, 3}, {'d', 10, 20.0, 3}, {'i', DE_STEIM1, 100.0, 2}, {'f', 4, 1.0, 2}};
  for (int f = 0; f < 8; f++)
    cfg.scenarios.push_back ({fmt ("append-%c-%d-v%d", FORMS[f].type, FORMS[f].enc, FORMS[f].ver), [=] (Ctx &c) {
      MemCheck mk;
      {
        int len = f < 2 ? (thorough ? 7 : 6) : thorough ? 6 : 5;
        size_t save = libmseed_prealloc_block_size; libmseed_prealloc_block_size = c.one<int> ({0, 100}); struct Restore { size_t v; ~Restore () { libmseed_prealloc_block_size = v; } } restore{save};
        Model M; M.type = FORMS[f].type; M.version = FORMS[f].ver; if (c.flip ()) M.extra = M.version == 3 ? "{\"x\":1}" : "{\"FDSN\":{\"Time\":{\"Quality\":100}}}";
        List L; R p; p.rate = FORMS[f].rate; p.type = FORMS[f].type; int key = 1;
        std::map<bytes, nstime_t> next; std::map<bytes, int> gaps; bool packed = false;
        bytes sids[2] = {"FDSN:XX_AAA__H_H_Z", "FDSN:XX_BBB__H_H_Z"};
        for (int k = 0; k < len; k++)
        {
          static const int NS[] = {1, 60, 200};
          int op = k == 0 ? c.pick (3) : k == len - 1 ? 7 : c.pick (8);
          if (op <= 4) // continuous additions of several sizes, one after a gap, one to the other identifier
          {
            R r = p; r.key = key++; r.n = op < 3 ? NS[op] : 60; r.sid = sids[op == 4]; if (!next.count (r.sid)) next[r.sid] = T0 + 123456000;
            // at 3 Hz exact continuity is the rounded time of the next sample from the first one
            r.start = next[r.sid]; if (op == 3) r.start += 50 * r.period ();
            if (op == 3) gaps[r.sid]++; M.chain[r.key] = gaps[r.sid];
            M.add (L.l, r); c.step ();
            next[r.sid] = r.start + (nstime_t) ((long double)r.n * 1e9L / r.hz () + 0.5L);
            if (p.rate == 3.0) M.slack += 1;
            M.remains (L.l);
          }
          else
          {
            uint32_t flags = op == 5 ? 0 : op == 6 ? (c.flip () ? MSF_MAINTAINMSTL | MSF_FLUSHDATA : MSF_MAINTAINMSTL) : MSF_FLUSHDATA;
            if (M.version == 2) flags |= MSF_PACKVER2;
            int verbose = 0; (void)verbose;
            Pk x = pack (c, M, L.l, flags, FORMS[f].enc);
            if (x.rc < 0) fail ("packing failed");
            if (p.rate == 3.0) M.slack += 1;
            after (M, L.l, x, flags);
            if (x.rc > 0) packed = true;
            // a second flush finds nothing
            if (op == 7) { Pk y = pack (c, M, L.l, flags, FORMS[f].enc); if (y.rc != 0 || y.n != 0) fail ("%lld records and %lld samples packed from a flushed list", (long long)y.rc, (long long)y.n); }
          }
        }
        if (packed) c.nontriv ();
        Hash h; for (auto &r : M.recs) h.i (r.second.start).i (r.second.n).s (r.second.sid); c.state (h.u (f));
      }
      mk.done ("rolling buffer");
    }, fmt ("all sequences of %d operations: append 1, 60 or 200 samples, append after a gap, append to another identifier, pack what is full, pack preserving the list (with or without flush), flush; with and without extra headers, both memory growth modes", f < 2 ? (thorough ? 7 : 6) : thorough ? 6 : 5)});

  // ---- any arrival order between packing calls
  cfg.scenarios.push_back ({"unordered", [=] (Ctx &c) {
    MemCheck mk;
    {
      Model M; M.inorder = false; M.reclen = 128; List L; int len = thorough ? 6 : 5, key = 1;
      for (int k = 0; k < len; k++)
      {
        int op = k == len - 1 ? 7 : c.pick (9);
        if (op < 6) { R r; r.key = key++; r.sid = "FDSN:XX_AAA__H_H_Z"; r.n = op == 5 ? 60 : 20; r.start = T0 + (op == 5 ? 1 : op) * 20 * NS1; M.add (L.l, r); c.step (); M.remains (L.l); }
        else { uint32_t flags = op == 6 ? 0 : op == 7 ? MSF_FLUSHDATA : MSF_FLUSHDATA | MSF_MAINTAINMSTL; Pk x = pack (c, M, L.l, flags, DE_INT32); if (x.rc < 0) fail ("packing failed"); after (M, L.l, x, flags); if (x.rc) c.nontriv (); }
      }
      Hash h; for (auto &r : M.recs) h.i (r.second.start).i (r.second.n); c.state (h);
    }
    mk.done ("rolling buffer");
  }, fmt ("all sequences of %d operations: add any of five neighbouring pieces or one overlapping several, in any order and repeatedly, pack, flush, pack preserving the list", thorough ? 6 : 5)});

  // ---- series of different types, rates and publication versions in one list
  cfg.scenarios.push_back ({"mixed", [=] (Ctx &c) {
    MemCheck mk;
    {
      Model M; M.inorder = false; M.type = 0; M.versions = true; if (c.flip ()) M.version = 2;
      M.reclen = c.one<int> ({256, 512}); if (c.flip ()) M.extra = M.version == 3 ? "{\"x\":1}" : "{\"FDSN\":{\"Time\":{\"Quality\":100}}}";
      List L; int n = 2 + c.pick (2), kinds[3], key = 1; int enc = c.one<int> ({-1, DE_INT32, DE_STEIM1, DE_STEIM2});
      static const struct { char type; double rate; int ver; } K[] = {{'i', 100, 1}, {'i', 1, 4}, {'f', 20, 2}, {'d', -10, 3}, {'d', 1, 255}, {'f', 0.5, 0}, {'i', 20, 0}};
      bool names = c.flip (); // other names, or segments under as few names as there can be
      for (int i = 0; i < n; i++) kinds[i] = c.pick (7);
      for (int round = 0; round < 2; round++)
      {
        for (int i = 0; i < n; i++)
        {
          R r; r.type = K[kinds[i]].type; r.rate = K[kinds[i]].rate; r.ver = K[kinds[i]].ver; r.key = key++; r.n = round ? 70 : 300; r.start = T0 + (i * 10 + round * 3) * 10000 * NS1; r.sid = names ? fmt ("FDSN:XX_A%d__H_H_Z", (i * 2 + 1) % 3) : "FDSN:XX_AA__H_H_Z"; r.ver = M.version == 2 ? 1 + i % 4 : r.ver;
          M.add (L.l, r); c.step ();
        }
        uint32_t flags = (round ? MSF_FLUSHDATA : 0) | (M.version == 2 ? MSF_PACKVER2 : 0);
        if (!round && c.flip ()) { Pk k = pack (c, M, L.l, flags | MSF_FLUSHDATA | MSF_MAINTAINMSTL, enc); if (k.rc < 0) fail ("packing failed"); after (M, L.l, k, flags | MSF_FLUSHDATA | MSF_MAINTAINMSTL); }
        Pk k = pack (c, M, L.l, flags, enc); if (k.rc < 0) fail ("packing failed");
        after (M, L.l, k, flags);
        if (k.rc) c.nontriv ();
      }
      Hash h; for (int i = 0; i < n; i++) h.i (kinds[i]); c.state (h.i (enc).i (M.version).i (names).i (M.reclen));
    }
    mk.done ("rolling buffer");
  }, "two or three series, each of any of seven combinations of sample type, rate and publication version, under one or several names, packed, preserved and flushed twice under four encodings, both versions, two record lengths, with and without extra headers"});

  // ---- text
  cfg.scenarios.push_back ({"text", [=] (Ctx &c) {
    MemCheck mk;
    {
      List L; bytes added, got; nstime_t at = T0; double rate = c.one<double> ({1.0, 0.0}); int len = thorough ? 6 : 5; int n = 0;
      for (int k = 0; k < len; k++)
      {
        int op = k == 0 ? 0 : k == len - 1 ? 3 : c.pick (4);
        if (op < 2)
        {
          R r; r.key = ++n; r.type = 't'; r.rate = rate; r.n = op ? 300 : 20; r.sid = "FDSN:XX_AAA__L_O_G"; r.start = at; at += 1000 * NS1; Msr m (r);
          if (rate) r.start = at - 1000 * NS1;
          if (!mstl3_addmsr (L.l, m.m, 0, 1, 0, NULL)) fail ("record not added");
          added += m.s; c.step ();
        }
        else
        {
          Packed p; int64_t cnt = -1; int64_t rc = mstl3_pack (L.l, pack_handler, &p, 128, DE_STEIM1, &cnt, op == 3 ? MSF_FLUSHDATA : 0, 0, NULL); c.step ();
          if (rc != (int64_t)p.recs.size ()) fail ("%lld records reported, %zu emitted", (long long)rc, p.recs.size ());
          // per segment in order of time; without flush segments may be interleaved, so compare as the list is emptied
          bytes now; for (auto &b : p.recs) { Rec3 r; bytes e = r.parse (b); if (e.size () || r.encoding != 0) fail ("emitted record"); now += r.data; }
          if ((int64_t)now.size () != cnt) fail ("%lld samples reported, %zu emitted", (long long)cnt, now.size ());
          got += now; int64_t left = 0;
          for (MS3TraceSeg *s = L.l->traces.next[0]->first; s; s = s->next) left += s->numsamples;
          if ((int64_t)(got.size () + left) != (int64_t)added.size ()) fail ("%zu characters added, %zu emitted, %lld left", added.size (), got.size (), (long long)left);
          if (op == 3 && left) fail ("characters left after a flush");
          if (rc) c.nontriv ();
        }
      }
      bytes a = added, b = got; std::sort (a.begin (), a.end ()); std::sort (b.begin (), b.end ());
      if (a != b) fail ("characters lost or changed");
      c.state (Hash ().s (added).d (rate));
    }
    mk.done ("rolling buffer");
  }, "text segments added and packed in all interleavings, with and without a sample rate"});

  // ---- failures while packing
  cfg.scenarios.push_back ({"failures", [=] (Ctx &c) {
    MemCheck mk;
    {
      // up to three segments, one of them with a value the requested encoding cannot hold
      Model M; M.inorder = false; List L; int segs = 1 + c.pick (3), pos = c.pick (segs); bool ids = c.flip (); int where = c.one<int> ({0, 1, 100, 300, 499}); bool flush = c.flip (); bool keep = c.flip (); bool ver2 = c.flip (); int how = c.pick (2);
      M.version = ver2 ? 2 : 3;
      int32_t *bad = NULL; int32_t good = 0;
      for (int i = 0; i < segs; i++)
      {
        R r; r.key = i + 1; r.n = 500; r.sid = ids ? fmt ("FDSN:XX_A%d__H_H_Z", i) : "FDSN:XX_AA__H_H_Z"; r.start = T0 + i * 1000 * NS1; M.add (L.l, r);
        MS3TraceID *id = mstl3_findID (L.l, r.sid.c_str (), 0, NULL); MS3TraceSeg *s = id->last;
        if (i == pos) { bad = (int32_t *)s->datasamples + where; good = *bad; }
      }
      if (how == 0) *bad = INT32_MAX - 5;
      uint32_t flags = (flush ? MSF_FLUSHDATA : 0) | (keep ? MSF_MAINTAINMSTL : 0) | (ver2 ? MSF_PACKVER2 : 0);
      bytes before = snapshot (L.l);
      Packed p; int64_t n = -5; int64_t rc = mstl3_pack (L.l, pack_handler, &p, how == 1 ? 60 : 256, DE_STEIM2, &n, flags, 0, NULL); c.step ();
      if (keep && snapshot (L.l) != before) fail ("the list was changed although asked to preserve it");
      // without a flush the value may not have been reached
      if (rc >= 0 && (flush || how == 1)) fail ("%lld returned although a segment cannot be packed", (long long)rc);
      if (rc >= 0 && rc != (int64_t)p.recs.size ()) fail ("%lld records reported, %zu emitted", (long long)rc, p.recs.size ());
      if (rc < 0) c.nontriv ();
      if (how == 0 && *(&n) < 0) fail ("samples not reported");
      // put the good value back: everything not yet emitted comes with the next flush
      if (how == 0)
      {
        bool done = false;
        for (MS3TraceID *id = L.l->traces.next[0]; id && !done; id = id->next[0]) for (MS3TraceSeg *s = id->first; s && !done; s = s->next) for (int64_t i = 0; i < s->numsamples && !done; i++) if (((int32_t *)s->datasamples)[i] == INT32_MAX - 5) { ((int32_t *)s->datasamples)[i] = good; done = true; }
        if (!done) fail ("a sample that cannot be packed is not in the list any more");
      }
      if (keep) { Model T = M; int64_t sum = 0; for (auto &b : p.recs) sum += T.emitted (b, T.at); if (how == 0 && n != sum) fail ("%lld samples reported, %lld emitted", (long long)n, (long long)sum); }
      else { int64_t sum = 0; for (auto &b : p.recs) sum += M.emitted (b, M.at); if (how == 0 && n != sum) fail ("%lld samples reported, %lld emitted", (long long)n, (long long)sum); }
      M.remains (L.l);
      Pk x = pack (c, M, L.l, MSF_FLUSHDATA | (ver2 ? MSF_PACKVER2 : 0), DE_STEIM2); if (x.rc < 0) fail ("packing failed the second time");
      after (M, L.l, x, MSF_FLUSHDATA);
      c.state (Hash ().u (segs).u (pos).u (where).u (flags).u (how).u (ids));
    }
    mk.done ("rolling buffer");
  }, "each of up to three segments (of one or several identifiers) made unpackable at five positions, or a record length too small, with and without flush and preservation, both versions; then repaired and flushed"});

  // ---- arguments
  cfg.scenarios.push_back ({"arguments", [=] (Ctx &c) {
    MemCheck mk;
    {
      Model M; List L; R r; r.key = 1; r.n = 300; r.sid = "FDSN:XX_AA__H_H_Z"; r.start = T0; M.add (L.l, r);
      int which = c.pick (4); Packed p; int64_t n = -5; int64_t rc = 0; bytes before = snapshot (L.l);
      bytes longextra = bytes ("{\"a\":\"") + bytes (70000, 'x') + "\"}"; Buf ex (longextra + bytes (1, 0));
      bytes big = bytes ("{\"a\":\"") + bytes (400, 'x') + "\"}"; Buf bx (big + bytes (1, 0));
      switch (which)
      {
      case 0: rc = mstl3_pack (NULL, pack_handler, &p, 256, 11, &n, 1, 0, NULL); break;
      case 1: rc = mstl3_pack (L.l, NULL, NULL, 256, 11, &n, 1, 0, NULL); break;
      case 2: rc = mstl3_pack (L.l, pack_handler, &p, 256, 11, &n, MSF_FLUSHDATA, 0, ex.p); break; // longer than can be stated
      case 3: rc = mstl3_pack (L.l, pack_handler, &p, 256, 11, &n, MSF_FLUSHDATA, 0, bx.p); break; // no room in a record
      }
      c.step ();
      if (rc != -1) fail ("%lld returned", (long long)rc);
      if (p.recs.size () || snapshot (L.l) != before || !ex.same () || !bx.same ()) fail ("something was emitted or changed");
      // the number of samples need not be asked for
      rc = mstl3_pack (L.l, pack_handler, &p, 256, 11, NULL, MSF_FLUSHDATA, 0, NULL);
      if (rc <= 0 || rc != (int64_t)p.recs.size ()) fail ("%lld returned", (long long)rc);
      for (auto &b : p.recs) M.emitted (b, M.at);
      M.remains (L.l); if (M.left ()) fail ("samples left after a flush");
      c.nontriv (); c.state (Hash ().u (which));
    }
    mk.done ("rolling buffer");
  }, "missing arguments, extra headers that are too long"});
  return run (argc, argv, cfg);
}
