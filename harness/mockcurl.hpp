// A stand-in for libcurl inside the harness process: an HTTP server and transfer machine whose choices (how the body is
// cut into pieces, when pieces arrive, whether a resumed transfer delivers at once, what fails) are set by the explorer.
// It follows the documented contract of the easy and multi interfaces; no socket is ever opened.
#pragma once
#include "ref.hpp"
#include <curl/curl.h>
#include <sys/select.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt

namespace mcurl {
using ref::bytes;
struct Server
{
  const bytes *content = nullptr; int status = 200;
  bool range = true;            // honours the Range header
  int64_t shift = 0;            // start actually served relative to the start requested
  size_t chunk = 16384;         // pieces of at most this size ...
  std::vector<size_t> cuts;     // ... and ending at these body offsets
  bool immediate = false;       // a resumed transfer delivers held data from within curl_easy_pause()
  int idle = 0;                 // perform calls without progress between pieces
  bool endsame = false;         // the end is noticed together with the last piece
  int64_t failat = -1;          // body offset at which the transfer breaks
  bool trailer = false;         // trailing headers after the body
  bytes seen_range, seen_headers; int opens = 0;
  int fd = -1;
};
inline Server &srv () { static Server s; return s; }
struct Easy
{
  uint32_t magic = 0xea51ea51;
  curl_write_callback w = nullptr; void *wd = nullptr, *hd = nullptr; curl_write_callback h = nullptr;
  bytes url, range; struct curl_slist *hdrs = nullptr; bool failonerror = false;
  bool started = false, done = false, paused = false, msgd = false; CURLcode result = CURLE_OK; long code = 0;
  size_t pos = 0, end = 0; int idle = 0; bytes held; bool have = false; void *multi = nullptr;
  CURLMsg msg;
};
struct Multi { uint32_t magic = 0x3a173a17; std::vector<Easy *> e; };
inline int &live () { static int n; return n; }
inline Easy *E (CURL *c) { Easy *e = (Easy *)c; if (!e || e->magic != 0xea51ea51) mc::fail ("libcurl called with an invalid easy handle"); return e; }
inline Multi *M (CURLM *c) { Multi *m = (Multi *)c; if (!m || m->magic != 0x3a173a17) mc::fail ("libcurl called with an invalid multi handle"); return m; }
inline void header (Easy *e, const bytes &line)
{
  if (!e->h) return;
  ref::Buf b (line);
  size_t r = e->h (b.p, 1, b.n, e->hd);
  if (r != b.n) { e->done = true; e->result = CURLE_WRITE_ERROR; }
}
inline void finish (Easy *e, CURLcode r) { e->done = true; e->result = r; }
inline bool deliver (Easy *e, const char *p, size_t n) // false when paused
{
  ref::Buf b (bytes (p, n));
  size_t r = e->w ? e->w (b.p, 1, n, e->wd) : n;
  if (r == CURL_WRITEFUNC_PAUSE) { e->paused = true; return false; }
  if (r != n) finish (e, CURLE_WRITE_ERROR);
  return true;
}
inline void start (Easy *e)
{
  Server &s = srv ();
  e->started = true; s.opens++; s.seen_range = e->range; s.seen_headers.clear ();
  for (struct curl_slist *l = e->hdrs; l; l = l->next) { s.seen_headers += l->data; s.seen_headers += "\n"; }
  int64_t a = 0, z = (int64_t)s.content->size () - 1;
  bool ranged = s.range && !e->range.empty ();
  if (ranged)
  {
    size_t d = e->range.find ('-');
    if (d == bytes::npos) mc::fail ("range header '%s'", e->range.c_str ());
    if (d > 0) a = atoll (e->range.c_str ()); else mc::fail ("range header '%s' names a suffix", e->range.c_str ());
    if (d + 1 < e->range.size ()) z = std::min<int64_t> (z, atoll (e->range.c_str () + d + 1));
    a = std::max<int64_t> (0, a + s.shift);
  }
  e->code = s.status != 200 ? s.status : ranged ? (a > z ? 416 : 206) : 200;
  header (e, mc::fmt ("HTTP/1.1 %ld X\r\n", e->code));
  header (e, "Content-Type: application/vnd.fdsn.mseed\r\n");
  if (e->code == 206) header (e, mc::fmt ("Content-Range: bytes %lld-%lld/%zu\r\n", (long long)a, (long long)z, s.content->size ()));
  header (e, "\r\n");
  if (e->code >= 400 && e->failonerror) { finish (e, CURLE_HTTP_RETURNED_ERROR); return; }
  if (e->code >= 400) a = z = 0;
  e->pos = (size_t)a; e->end = z >= a ? (size_t)z + 1 : (size_t)a;
  if (s.failat >= 0 && (size_t)s.failat < e->pos) s.failat = e->pos;
  e->idle = s.idle;
}
inline void progress (Easy *e)
{
  Server &s = srv ();
  if (e->done || e->paused) return;
  if (!e->started) { start (e); if (e->done) return; }
  if (e->idle > 0) { e->idle--; return; }
  e->idle = s.idle;
  if (e->have)
  {
    if (!deliver (e, e->held.data (), e->held.size ())) return;
    e->have = false;
    if (!s.endsame) return;
  }
  else if (e->pos < e->end && !(s.failat >= 0 && e->pos >= (size_t)s.failat))
  {
    size_t n = std::min (s.chunk, e->end - e->pos);
    if (s.failat >= 0) n = std::min (n, (size_t)s.failat - e->pos);
    for (size_t c : s.cuts) if (c > e->pos && c < e->pos + n) n = c - e->pos;
    const char *p = s.content->data () + e->pos;
    e->pos += n;
    if (!deliver (e, p, n)) { e->held.assign (p, n); e->have = true; return; }
    if (e->done || !s.endsame) return;
  }
  if (e->done) return;
  if (s.failat >= 0 && e->pos >= (size_t)s.failat && (size_t)s.failat <= e->end) { finish (e, CURLE_PARTIAL_FILE); return; }
  if (e->pos >= e->end)
  {
    if (s.trailer) { header (e, "X-Trailer: 1\r\n"); header (e, "Content-Range: bytes 3-7/9\r\n"); }
    finish (e, CURLE_OK);
  }
}
} // namespace mcurl

extern "C" {
CURL *curl_easy_init (void) { mcurl::live ()++; return (CURL *)new mcurl::Easy; }
CURL *curl_easy_duphandle (CURL *c) { mcurl::live ()++; mcurl::Easy *e = new mcurl::Easy (*mcurl::E (c)); e->multi = nullptr; e->started = e->done = false; return (CURL *)e; }
void curl_easy_cleanup (CURL *c) { if (!c) return; mcurl::Easy *e = mcurl::E (c); if (e->multi) mc::fail ("easy handle released while in use by a multi handle"); e->magic = 0; mcurl::live ()--; delete e; }
CURLcode curl_easy_setopt (CURL *c, CURLoption o, ...)
{
  va_list ap; va_start (ap, o); void *v = va_arg (ap, void *); va_end (ap);
  mcurl::Easy *e = mcurl::E (c);
  switch (o)
  {
  case CURLOPT_WRITEFUNCTION: e->w = (curl_write_callback)v; break;
  case CURLOPT_WRITEDATA: e->wd = v; break;
  case CURLOPT_HEADERFUNCTION: e->h = (curl_write_callback)v; break;
  case CURLOPT_HEADERDATA: e->hd = v; break;
  case CURLOPT_URL: e->url = v ? (char *)v : ""; break;
  case CURLOPT_RANGE: e->range = v ? (char *)v : ""; break;
  case CURLOPT_HTTPHEADER: e->hdrs = (struct curl_slist *)v; break;
  case CURLOPT_FAILONERROR: e->failonerror = v != nullptr; break;
  default: break;
  }
  return CURLE_OK;
}
CURLcode curl_easy_getinfo (CURL *c, CURLINFO i, ...)
{
  va_list ap; va_start (ap, i); void *v = va_arg (ap, void *); va_end (ap);
  if (i == CURLINFO_RESPONSE_CODE) *(long *)v = mcurl::E (c)->code; else return CURLE_UNKNOWN_OPTION;
  return CURLE_OK;
}
CURLcode curl_easy_pause (CURL *c, int mask)
{
  mcurl::Easy *e = mcurl::E (c);
  if (mask & CURLPAUSE_RECV) { e->paused = true; return CURLE_OK; }
  if (!e->paused) return CURLE_OK;
  e->paused = false;
  if (mcurl::srv ().immediate && e->have && !e->done && mcurl::deliver (e, e->held.data (), e->held.size ())) e->have = false;
  return CURLE_OK;
}
const char *curl_easy_strerror (CURLcode) { return "error"; }
const char *curl_multi_strerror (CURLMcode) { return "error"; }
CURLM *curl_multi_init (void) { mcurl::live ()++; return (CURLM *)new mcurl::Multi; }
CURLMcode curl_multi_add_handle (CURLM *m, CURL *c) { mcurl::Easy *e = mcurl::E (c); if (e->multi) return CURLM_ADDED_ALREADY; e->multi = m; mcurl::M (m)->e.push_back (e); return CURLM_OK; }
CURLMcode curl_multi_remove_handle (CURLM *m, CURL *c)
{
  if (!m) return CURLM_BAD_HANDLE;
  if (!c) return CURLM_BAD_EASY_HANDLE;
  auto &v = mcurl::M (m)->e;
  v.erase (std::remove (v.begin (), v.end (), mcurl::E (c)), v.end ());
  mcurl::E (c)->multi = nullptr;
  return CURLM_OK;
}
CURLMcode curl_multi_cleanup (CURLM *m) { if (!m) return CURLM_BAD_HANDLE; mcurl::Multi *p = mcurl::M (m); for (auto e : p->e) e->multi = nullptr; p->magic = 0; mcurl::live ()--; delete p; return CURLM_OK; }
CURLMcode curl_multi_timeout (CURLM *m, long *ms) { *ms = 0; return CURLM_OK; }
CURLMcode curl_multi_fdset (CURLM *m, fd_set *r, fd_set *w, fd_set *x, int *maxfd)
{
  mcurl::Server &s = mcurl::srv ();
  if (s.fd < 0) s.fd = open ("/dev/null", O_RDONLY | O_CLOEXEC);
  FD_SET (s.fd, r); *maxfd = s.fd; // always ready
  return CURLM_OK;
}
CURLMcode curl_multi_wait (CURLM *, struct curl_waitfd *, unsigned, int, int *n) { if (n) *n = 1; return CURLM_OK; }
CURLMcode curl_multi_poll (CURLM *, struct curl_waitfd *, unsigned, int, int *n) { if (n) *n = 1; return CURLM_OK; }
CURLMcode curl_multi_perform (CURLM *m, int *running)
{
  int n = 0;
  for (auto e : mcurl::M (m)->e) { mcurl::progress (e); if (!e->done) n++; }
  *running = n;
  return CURLM_OK;
}
CURLMsg *curl_multi_info_read (CURLM *m, int *left)
{
  *left = 0;
  for (auto e : mcurl::M (m)->e) if (e->done && !e->msgd) { e->msgd = true; e->msg.msg = CURLMSG_DONE; e->msg.easy_handle = (CURL *)e; e->msg.data.result = e->result; return &e->msg; }
  return nullptr;
}
struct curl_slist *curl_slist_append (struct curl_slist *l, const char *s)
{
  mcurl::live ()++;
  struct curl_slist *n = new curl_slist; n->data = strdup (s); n->next = nullptr;
  if (!l) return n;
  struct curl_slist *t = l; while (t->next) t = t->next; t->next = n;
  return l;
}
void curl_slist_free_all (struct curl_slist *l) { while (l) { struct curl_slist *n = l->next; free (l->data); delete l; mcurl::live ()--; l = n; } }
}
