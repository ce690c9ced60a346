// P28: reading from URLs with the real libcurl and a loopback HTTP server whose replies are enumerated; the settings of
// requests as a model that every history of setting and reading is compared with.
#include "prog.hpp"
#include <arpa/inet.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <atomic>
#include <mutex>
#include <sys/socket.h>
#include <thread>
using namespace prog; using namespace world;
// the library naps while libcurl is busy: shorter here
extern "C" int nanosleep (const struct timespec *, struct timespec *) { struct timespec t = {0, 300000}; return clock_nanosleep (CLOCK_MONOTONIC, 0, &t, NULL); }

// a certificate of this process that nobody has reason to trust, for another host
static SSL_CTX *untrusted ()
{
  static SSL_CTX *ctx; if (ctx) return ctx;
  EVP_PKEY *k = EVP_RSA_gen (2048); X509 *x = X509_new (); ASN1_INTEGER_set (X509_get_serialNumber (x), 1); X509_gmtime_adj (X509_getm_notBefore (x), -86400); X509_gmtime_adj (X509_getm_notAfter (x), 864000); X509_set_pubkey (x, k);
  X509_NAME *n = X509_get_subject_name (x); X509_NAME_add_entry_by_txt (n, "CN", MBSTRING_ASC, (const unsigned char *)"elsewhere.invalid", -1, -1, 0); X509_set_issuer_name (x, n); X509_sign (x, k, EVP_sha256 ());
  ctx = SSL_CTX_new (TLS_server_method ()); if (!k || !ctx || SSL_CTX_use_certificate (ctx, x) != 1 || SSL_CTX_use_PrivateKey (ctx, k) != 1) { printf ("no certificate\n"); fflush (stdout); _exit (3); }
  return ctx;
}
enum Kind { LENGTH, CHUNKED, CLOSE, REDIRECT, REDIRECT_TWICE, AUTH, AUTH_KEEP, INTERIM, TRAILER, LASTGOOD = TRAILER, S404, S500, S403, S416, NOREPLY, CUT, CUT_CHUNKED, REFUSED, LOOP, NKIND };
static const char *KN[] = {"known length", "chunked", "ends with the connection", "redirected", "redirected twice", "after a challenge", "after a challenge on the same connection", "after an interim reply", "with trailing headers", "not found", "server error", "forbidden", "no such range", "no reply", "broken off", "broken off within chunks", "refused", "redirected without end"};
struct Server
{
  int fd = -1, port = 0; Kind kind = LENGTH; bytes body, secret; std::vector<size_t> cuts; int64_t breakat = 0; std::vector<bytes> reqs; int64_t base = 0 /* the body is that far into what is served */; const char *crange = NULL /* instead of the right reply to ranges */; SSL_CTX *ctx = NULL; SSL *ssl = NULL; std::mutex mu; std::atomic<bool> stop{false}; std::thread th;
  ssize_t send (int s, const char *p, size_t n, int fl) { return ssl ? SSL_write (ssl, p, (int)n) : ::send (s, p, n, fl); }
  ssize_t recv (int s, char *p, size_t n, int fl) { return ssl ? SSL_read (ssl, p, (int)n) : ::recv (s, p, n, fl); }
  void send_all (int s, const bytes &b) { for (size_t o = 0; o < b.size ();) { ssize_t n = send (s, b.data () + o, b.size () - o, MSG_NOSIGNAL); if (n <= 0) return; o += n; } }
  void pieces (int s, const bytes &b, bool chunked)
  {
    size_t o = 0; for (size_t i = 0; i <= cuts.size (); i++) { size_t e = i < cuts.size () ? std::min (cuts[i], b.size ()) : b.size (); if (e <= o) continue; bytes p = b.substr (o, e - o); send_all (s, chunked ? fmt ("%zx\r\n", p.size ()) + p + "\r\n" : p); if (i < cuts.size ()) { struct timespec t = {0, 1000000}; clock_nanosleep (CLOCK_MONOTONIC, 0, &t, NULL); } o = e; }
  }
  // false: the connection ends
  bool reply (int s, const bytes &q)
  {
    size_t p = q.find (' ') + 1; bytes path = q.substr (p, q.find (' ', p) - p); int64_t a = base, z = base + (int64_t)body.size () - 1; bool ranged = false;
    size_t r = q.find ("\r\nRange: bytes="); if (r != bytes::npos) { ranged = true; r += 15; char *e; a = strtoll (q.c_str () + r, &e, 10); if (*e == '-' && isdigit (e[1])) z = std::min<int64_t> (z, atoll (e + 1)); }
    Kind k = kind;
    if (k == REDIRECT || k == REDIRECT_TWICE || k == LOOP)
    {
      bytes to = path == "/second" ? "/third" : "/second"; bool last = k != LOOP && (k == REDIRECT ? path == "/second" : path == "/third");
      if (!last) { send_all (s, "HTTP/1.1 302 Found\r\nLocation: " + to + "\r\nContent-Length: 9\r\nConnection: close\r\n\r\nelsewhere"); return false; }
      k = LENGTH;
    }
    if (k == AUTH || k == AUTH_KEEP)
    {
      if (q.find ("\r\nAuthorization: " + secret + "\r\n") == bytes::npos) { send_all (s, fmt ("HTTP/1.1 401 Who\r\nWWW-Authenticate: Basic realm=\"x\"\r\nContent-Length: 6\r\n%s\r\ndenied", k == AUTH ? "Connection: close\r\n" : "")); return k == AUTH_KEEP; }
      k = LENGTH;
    }
    int bad = k == S404 ? 404 : k == S500 ? 500 : k == S403 ? 403 : k == S416 ? 416 : 0;
    if (bad) { send_all (s, fmt ("HTTP/1.1 %d Bad\r\nContent-Length: %zu\r\nConnection: close\r\n\r\n", bad, body.size ()) + body); return false; }
    if (k == NOREPLY) return false;
    if (ranged && (a > z || a < base)) { send_all (s, fmt ("HTTP/1.1 416 Range\r\nContent-Range: bytes */%zu\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", body.size ())); return false; }
    bytes b = body.substr (a - base, z + 1 - a), head = k == CLOSE ? "HTTP/1.0 " : "HTTP/1.1 "; head += ranged ? "206 Part\r\n" : "200 OK\r\n";
    if (k == INTERIM) send_all (s, "HTTP/1.1 100 Continue\r\n\r\n");
    if (ranged) head += crange ? fmt (crange, (long long)a, (long long)z) + "\r\n" : fmt ("Content-Range: bytes %lld-%lld/%lld\r\n", (long long)a, (long long)z, (long long)base + (long long)body.size ());
    bool ch = k == CHUNKED || k == TRAILER || k == CUT_CHUNKED;
    if (ch) head += "Transfer-Encoding: chunked\r\n"; else if (k != CLOSE) head += fmt ("Content-Length: %zu\r\n", b.size ());
    send_all (s, head + "Content-Type: application/vnd.fdsn.mseed\r\nConnection: close\r\n\r\n");
    if (k == CUT || k == CUT_CHUNKED) { pieces (s, b.substr (0, breakat), ch); return false; }
    pieces (s, b, ch);
    if (ch) send_all (s, k == TRAILER ? "0\r\nX-T: 1\r\nContent-Range: bytes 7-9/44\r\n\r\n" : "0\r\n\r\n");
    return false;
  }
  void loop ()
  {
    while (!stop)
    {
      struct pollfd pf = {fd, POLLIN, 0}; if (poll (&pf, 1, 20) <= 0) continue;
      int s = accept (fd, NULL, NULL); if (s < 0) continue;
      if (ctx) { ssl = SSL_new (ctx); SSL_set_fd (ssl, s); if (SSL_accept (ssl) != 1) { SSL_free (ssl); ssl = NULL; close (s); continue; } }
      for (bool more = true; more;)
      {
        bytes q; char c[2048]; while (q.find ("\r\n\r\n") == bytes::npos) { struct pollfd p2 = {s, POLLIN, 0}; if (!(ssl && SSL_pending (ssl)) && poll (&p2, 1, 3000) <= 0) break; ssize_t n = recv (s, c, sizeof c, 0); if (n <= 0) break; q.append (c, n); }
        if (q.find ("\r\n\r\n") == bytes::npos) break;
        { std::lock_guard<std::mutex> g (mu); reqs.push_back (q); }
        more = reply (s, q);
      }
      if (ssl) SSL_shutdown (ssl);
      shutdown (s, SHUT_WR); char c[512]; struct pollfd p2 = {s, POLLIN, 0}; if (poll (&p2, 1, 50) > 0) (void)!::recv (s, c, sizeof c, 0); if (ssl) SSL_free (ssl); ssl = NULL; close (s);
    }
  }
  Server ()
  {
    fd = socket (AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl (INADDR_LOOPBACK); if (bind (fd, (struct sockaddr *)&a, sizeof a) || listen (fd, 16)) { printf ("no loopback\n"); exit (98); }
    socklen_t l = sizeof a; getsockname (fd, (struct sockaddr *)&a, &l); port = ntohs (a.sin_port);
  }
  void start () { th = std::thread ([this] { loop (); }); }
  void finish () { stop = true; if (th.joinable ()) th.join (); close (fd); }
  bytes url (const char *path = "/data") const { return fmt ("%s://127.0.0.1:%d%s", ctx ? "https" : "http", port, path); }
  std::vector<bytes> take () { std::lock_guard<std::mutex> g (mu); auto v = reqs; reqs.clear (); return v; }
};
static bytes b64 (const bytes &s) { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; bytes o; for (size_t i = 0; i < s.size (); i += 3) { uint32_t v = 0; int n = std::min<size_t> (3, s.size () - i); for (int k = 0; k < 3; k++) v = v << 8 | (k < n ? (uint8_t)s[i + k] : 0); for (int k = 0; k < 4; k++) o += k <= n ? T[v >> (18 - 6 * k) & 63] : '='; } return o; }
static std::vector<bytes> rows (const bytes &s) { std::vector<bytes> v; size_t p = 0; while (p < s.size ()) { size_t e = s.find ('\n', p); if (e == bytes::npos) e = s.size (); v.push_back (s.substr (p, e - p)); p = e + 1; } return v; }
static int nerr; static void count_err (const char *) { nerr++; }
static void quiet_log (const char *) {}
// read everything at the path, print what came
static void read_url (const bytes &path, uint32_t flags, const bytes &body, int stopafter = -1, int64_t base = 0)
{
  MS3FileParam *f = NULL; MS3Record *m = NULL; int rc, n = 0; nerr = 0;
  while ((rc = ms3_readmsr_r (&f, &m, path.c_str (), flags, 0)) == MS_NOERROR)
  {
    int64_t at = f->streampos - m->reclen - base; printf ("R %lld %d %d\n", (long long)at, m->reclen, at >= 0 && at + m->reclen <= (int64_t)body.size () && !memcmp (m->record, body.data () + at, m->reclen));
    if (++n == stopafter) break;
  }
  printf ("E %s %d\n", rc == MS_NOERROR ? "stopped" : rc == MS_ENDOFFILE ? "end" : rc == MS_NOTSEED ? "nodata" : "error", nerr > 0);
  ms3_readmsr_r (&f, &m, NULL, 0, 0);
}
static std::vector<bytes> custom (const bytes &req, bytes &first, bytes &agent, bytes &range, bytes &auth)
{
  std::vector<bytes> v, out; size_t p = 0; while (p < req.size ()) { size_t e = req.find ("\r\n", p); if (e == p) break; v.push_back (req.substr (p, e - p)); p = e + 2; }
  for (size_t i = 0; i < v.size (); i++)
  {
    if (i == 0) first = v[i]; else if (!v[i].compare (0, 6, "Host: ") || !v[i].compare (0, 8, "Accept: ")) continue;
    else if (!v[i].compare (0, 7, "Range: ")) range = v[i].substr (7); else if (!v[i].compare (0, 15, "Authorization: ")) auth = v[i].substr (15);
    else if (!v[i].compare (0, 12, "User-Agent: ") && agent.empty () && v[i].find ("User-Agent: libmseed/") == 0) agent = v[i]; else out.push_back (v[i]);
  }
  return out;
}
static void print_req (const bytes &q)
{
  bytes f, a, r, u; auto h = custom (q, f, a, r, u); printf ("Q %s|range %s|auth %s|agent %d", f.c_str (), r.c_str (), u.c_str (), !a.empty ()); for (auto &x : h) printf ("|%s", x.c_str ()); printf ("\n");
}

int main (int argc, char **argv)
{
  bool th = getenv ("VERIF_TIER") && !strcmp (getenv ("VERIF_TIER"), "thorough");
  Config cfg; cfg.property = "P28";
  cfg.rule = "every server behaviour x byte range x cut of the reply, and every history of settings and reads up to the stated length, with the real libcurl on the loopback network";
  cfg.assumptions = {"servers honour byte ranges", "credentials are sent when a server asks for them", "what libcurl adds of its own (Host, Accept) is its business"};
  static std::vector<Rc> recs; for (int i = 0; i < 4; i++) recs.push_back (make (i == 1 ? V2BE : i == 2 ? ST2 : I32, "XX", "STA", "00", "HHZ", i + 1, i == 3 ? 300 : 20, T0 + i * 1000 * NS1));
  static bytes body; static std::vector<int64_t> off; for (auto &r : recs) { off.push_back (body.size ()); body += r.raw; } off.push_back (body.size ());

  cfg.scenarios.push_back ({"transfers", [=] (Ctx &c) {
    Kind k = (Kind)c.pick (NKIND); int form = c.pick (4); int64_t a = -1, z = -1; bytes suf;
    if (form == 1 || form == 3) a = off[1 + c.pick (3)];
    if (form == 2 || form == 3) { z = off[1 + c.pick (4)] - 1; if (c.flip ()) z += 50; }
    if (form) suf = fmt ("@%s-%s", a >= 0 ? fmt ("%lld", (long long)a).c_str () : "", z >= 0 ? fmt ("%lld", (long long)z).c_str () : "");
    if (a >= 0 && z >= 0 && z < a + 40) return;
    std::vector<size_t> cuts; int nc = k == CHUNKED || k == LENGTH || k == TRAILER ? c.pick (3) : 0; if (nc == 1) cuts = {1, 39, 41}; if (nc == 2) for (size_t i = 100; i < body.size (); i += 100) cuts.push_back (i);
    int64_t brk = k == CUT || k == CUT_CHUNKED ? c.one<int64_t> ({0, 10, off[1], off[1] + 30, off[2] + 1}) : 0; bool creds = k == AUTH || k == AUTH_KEEP ? c.flip () : false; int stop = k <= CLOSE && c.flip () ? 1 : -1;
    Spec s; s.fn = [=] () -> int {
      ms_loginit (quiet_log, NULL, count_err, NULL);
      Server v; v.kind = k; v.body = body; v.cuts = cuts; v.breakat = brk; v.secret = "Basic " + b64 ("me:my word"); if (k == REFUSED) close (v.fd); else v.start ();
      if (creds) ms3_url_userpassword ("me:my word");
      read_url (v.url () + suf, (form ? MSF_PNAMERANGE : 0) | MSF_SKIPNOTDATA, body, stop);
      if (k != REFUSED) v.finish (); for (auto &q : v.take ()) print_req (q); fflush (stdout); _exit (0); return 0; };
    Out r = run (s); c.step (); bytes what = fmt ("reply %s to http://...%s", KN[k], suf.c_str ()); auto l = rows (r.out);
    if (r.status == 98) { fail ("no loopback network"); }
    if (r.status) fail ("%s: ended with %d: %s", what.c_str (), r.status, r.err.substr (0, 500).c_str ());
    // what should come
    bool good = k <= LASTGOOD && !((k == AUTH || k == AUTH_KEEP) && !creds); int64_t lo = std::max<int64_t> (a, 0), hi = z < 0 ? (int64_t)body.size () : std::min<int64_t> (z + 1, body.size ());
    std::vector<bytes> want; int64_t top = good ? hi : k == CUT || k == CUT_CHUNKED ? std::min (hi, lo + brk) : 0;
    for (size_t i = 0; i < recs.size (); i++) if (off[i] >= lo && off[i + 1] <= top) want.push_back (fmt ("R %lld %zu 1", (long long)off[i], recs[i].raw.size ()));
    bool all = brk >= hi - lo; if (k == CUT && all) good = true; bool open = k == CUT_CHUNKED && all && form; // everything asked for came, but no end: not judged
    if (stop > 0 && want.size () > 1) want.resize (1);
    size_t i = 0; for (; i < want.size (); i++) if (i >= l.size () || l[i] != want[i]) fail ("%s: '%s' instead of '%s'", what.c_str (), i < l.size () ? l[i].c_str () : "", want[i].c_str ());
    if (i >= l.size () || l[i].compare (0, 2, "E ")) fail ("%s: more records than served: %s", what.c_str (), i < l.size () ? l[i].c_str () : "");
    bool part = z >= 0 && hi != off[1] && hi != off[2] && hi != off[3] && hi != off[4]; // the range ends within a record: not judged how the end is told
    if (stop > 0 && want.size () == 1) { if (l[i] != "E stopped 0") fail ("%s: %s", what.c_str (), l[i].c_str ()); }
    else if (open) ;
    else if (good && !part && !want.empty () && l[i] != "E end 0") fail ("%s: reading ends with '%s'", what.c_str (), l[i].c_str ());
    else if (!good && l[i].compare (0, 7, "E error")) fail ("%s: reading ends with '%s', the failure is not reported", what.c_str (), l[i].c_str ());
    else if (!good && l[i] != "E error 1") fail ("%s: an error is returned without a message", what.c_str ());
    // what was asked for
    bytes rg = a > 0 || z > 0 ? fmt ("bytes=%lld-%s", (long long)std::max<int64_t> (a, 0), z > 0 ? fmt ("%lld", (long long)z).c_str () : "") : bytes ();
    std::vector<bytes> paths = {"/data"}; if (k == REDIRECT || k == REDIRECT_TWICE) paths.push_back ("/second"); if (k == REDIRECT_TWICE) paths.push_back ("/third"); if (creds) paths.push_back ("/data"); if (k == REFUSED) paths.clear ();
    if (k == LOOP) { if (l.size () < i + 3) fail ("redirections are not followed"); return; }
    if (k == NOREPLY && l.size () == i + 3) l.pop_back (); // libcurl may try again
    if (l.size () != i + 1 + paths.size ()) fail ("%s: %zu requests instead of %zu", what.c_str (), l.size () - i - 1, paths.size ());
    for (size_t q = 0; q < paths.size (); q++) { bytes e = fmt ("Q GET %s HTTP/1.1|range %s|auth %s|agent 1", paths[q].c_str (), rg.c_str (), creds && q ? ("Basic " + b64 ("me:my word")).c_str () : ""); if (l[i + 1 + q] != e) fail ("%s: request '%s' instead of '%s'", what.c_str (), l[i + 1 + q].c_str (), e.c_str ()); }
    if (want.size () > 1) c.nontriv (); c.state (Hash ().s (r.out));
  }, "18 server behaviours (framing, redirections, challenges, interim replies, trailers, error codes, breaking off at 5 offsets, refusal) x byte ranges from and to every record bound x 3 ways to cut the reply, reading all or one record"});

  // histories of settings
  static const char *HD[] = {"X-One: 1", "X-Two: a b", "Accept-Language: de", "User-Agent: mine"};
  cfg.scenarios.push_back ({"settings", [=] (Ctx &c) {
    int depth = 1 + c.pick (th ? 5 : 4); std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back (c.pick (9)); bool keep = depth < (th ? 5 : 4) && c.flip (); // with another reader open throughout
    Spec s; s.fn = [=] () -> int {
      ms_loginit (quiet_log, NULL, count_err, NULL);
      Server v; v.body = body; v.kind = AUTH_KEEP; v.secret = "?"; v.start (); MS3FileParam *f = NULL; MS3Record *m = NULL; bytes cur;
      v.kind = LENGTH;
      if (keep) { ms3_readmsr_r (&f, &m, v.url ("/kept").c_str (), 0, 0); v.take (); }
      auto get = [&] { v.kind = cur.empty () ? LENGTH : AUTH; v.secret = "Basic " + b64 (cur); read_url (v.url (), 0, body, 1); for (auto &q : v.take ()) print_req (q); };
      for (int o : ops) { int rc = 0; switch (o) { case 0: case 1: rc = ms3_url_addheader (HD[o]); break; case 2: rc = ms3_url_useragent ("prog", "1.2"); break; case 3: rc = ms3_url_useragent ("other", NULL); break; case 4: rc = ms3_url_userpassword ("me:secret"); cur = "me:secret"; break; case 5: rc = ms3_url_userpassword ("you:x:y"); cur = "you:x:y"; break; case 6: ms3_url_freeheaders (); break; case 7: get (); break; case 8: rc = ms3_url_addheader (HD[3]); break; } printf ("rc %d\n", rc); }
      get ();
      if (keep) { int n = 1; while (ms3_readmsr_r (&f, &m, v.url ("/kept").c_str (), 0, 0) == MS_NOERROR) n++; printf ("kept %d\n", n); ms3_readmsr_r (&f, &m, NULL, 0, 0); }
      ms3_url_freeheaders (); v.finish (); fflush (stdout); _exit (0); return 0; };
    Out r = run (s); c.step (ops.size ()); auto l = rows (r.out); if (r.status) fail ("ended with %d: %s", r.status, r.err.substr (0, 500).c_str ());
    std::vector<bytes> want; std::vector<bytes> hd; bytes cur; bytes vers; { size_t p = r.out.find (" libmseed/"); if (p != bytes::npos) { vers = r.out.substr (p, r.out.find_first_of ("|\n", p) - p); if (vers.compare (0, 10, " libmseed/") || vers.find (" libcurl/") == bytes::npos) fail ("agent versions '%s'", vers.c_str ()); } }
    auto q = [&] (bool auth) { bool ua = false; bytes e; for (auto &h : hd) { if (h.compare (0, 12, "User-Agent: ") == 0) ua = true; e += "|" + h; } want.push_back (fmt ("Q GET /data HTTP/1.1|range |auth %s|agent %d", auth ? ("Basic " + b64 (cur)).c_str () : "", !ua) + e); };
    auto get = [&] { want.push_back (fmt ("R 0 %zu 1", recs[0].raw.size ())); want.push_back ("E stopped 0"); q (false); if (!cur.empty ()) q (true); };
    for (int o : ops) { switch (o) { case 0: case 1: hd.push_back (HD[o]); break; case 2: hd.push_back ("User-Agent: prog/1.2" + vers); break; case 3: hd.push_back ("User-Agent: other" + vers); break; case 4: cur = "me:secret"; break; case 5: cur = "you:x:y"; break; case 6: hd.clear (); break; case 7: get (); break; case 8: hd.push_back (HD[3]); break; } want.push_back ("rc 0"); }
    get (); if (keep) want.push_back (fmt ("kept %zu", recs.size ()));
    for (size_t i = 0; i < std::max (want.size (), l.size ()); i++) { bytes g = i < l.size () ? l[i] : "", w = i < want.size () ? want[i] : ""; if (g != w) fail ("step %zu: '%s' instead of '%s'", i, g.c_str (), w.c_str ()); }
    c.nontriv (); c.state (Hash ().s (r.out));
  }, fmt ("every history of up to %d of 9 operations (four headers, agents with and without version, two credentials, freeing the headers, reading), the shorter ones with and without another reader open throughout", th ? 5 : 4)});

  cfg.scenarios.push_back ({"arguments", [=] (Ctx &c) {
    int op = c.pick (6); size_t n = c.one<size_t> ({1, 900, 980, 1023, 1024, 5000}); bytes big (n, 'p');
    Spec s; s.fn = [=] () -> int {
      ms_loginit (quiet_log, NULL, count_err, NULL); nerr = 0; Server v; v.body = body; v.start (); int rc = 0;
      if (op == 0) rc = ms3_url_useragent (NULL, "1"); if (op == 1) rc = ms3_url_userpassword (NULL); if (op == 2) rc = ms3_url_addheader (NULL); if (op == 3) { rc = ms3_url_useragent (big.c_str (), "1"); } if (op == 4) rc = ms3_url_addheader (("X-Big: " + big).c_str ()); if (op == 5) ms3_url_freeheaders ();
      printf ("rc %d %d\n", rc, nerr); read_url (v.url (), 0, body, 1); for (auto &q : v.take ()) print_req (q); printf ("S %d\n", ms3_url_useragent != NULL && libmseed_url_support ()); v.finish (); fflush (stdout); _exit (0); return 0; };
    Out r = run (s); c.step (); c.nontriv (); auto l = rows (r.out); if (r.status || l.size () != 5) fail ("ended with %d: %s %s", r.status, r.out.substr (0, 500).c_str (), r.err.substr (0, 500).c_str ());
    if (op < 3 ? l[0] != "rc -1 1" : l[0] != "rc 0 0") fail ("setting returned '%s'", l[0].c_str ());
    bytes e = "Q GET /data HTTP/1.1|range |auth |agent 1"; if (op == 4) e += "|X-Big: " + big;
    if (op == 3) { bytes p = "Q GET /data HTTP/1.1|range |auth |agent 0|User-Agent: " + big.substr (0, 900); if (l[3].compare (0, p.size (), p)) fail ("request '%s'", l[3].substr (0, 200).c_str ()); }
    else if (l[3] != e) fail ("request '%s' instead of '%s'", l[3].substr (0, 200).c_str (), e.substr (0, 200).c_str ());
    if (l[1] != fmt ("R 0 %zu 1", recs[0].raw.size ()) || l[4] != "S 1") fail ("reading gave '%s', support '%s'", l[1].c_str (), l[4].c_str ());
  }, "missing arguments, agents and headers of up to 5000 characters"});

  // how a range is asked for and what the reply says of it
  cfg.scenarios.push_back ({"range replies", [=] (Ctx &c) {
    struct V { const char *t; bool says; }; static const V vs[] = {{NULL, true}, {"content-range: bytes %lld-%lld/9", true}, {"Content-Range: bytes    %lld-%lld/*", true}, {"Content-Range: bytes %020lld-%020lld/99999999999999", true}, {"Content-Range: bytes */5000", false}, {"X-Content-Range: bytes 7-9/44", false}, {"Content-Range: bytes", false}, {"Content-Range: bytes ", false}, {"Content-Range: items 7-9/44", false},
      {"Content-Range: bytes %021lld-%021lld/99999999999999", false}, {"Content-Range: bytes 777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777-7/9", false}, {"Content-Range: bytes %lld-777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777/9", true}, {"Content-Range: bytes ----------------------------------------------------------------", false}, {"Content-Range: bytes %%%%n%%%%s-%%%%s", false}, {"Content-Range: unknown", false}};
    const V &v0 = vs[c.pick ((int)(sizeof vs / sizeof *vs))]; int64_t base = c.one<int64_t> ({0, (1LL << 31) - 600, (1LL << 32) - 100, 1LL << 32, 1LL << 53, 9000000000000000000LL}); int from = c.pick (3) + (base ? 0 : 1), to = from + 1 + c.pick (4 - from); bool open = c.flip ();
    bytes suf = open ? fmt ("@%lld", (long long)(base + off[from])) : fmt ("@%lld-%lld", (long long)(base + off[from]), (long long)(base + off[to] - 1)); if (open) to = 4;
    Spec s; s.fn = [=] () -> int {
      ms_loginit (quiet_log, NULL, count_err, NULL); Server v; v.base = base; v.body = body; v.crange = v0.t; v.start (); read_url (v.url () + suf, MSF_PNAMERANGE, body, -1, base); v.finish (); for (auto &q : v.take ()) print_req (q); fflush (stdout); _exit (0); return 0; };
    Out r = run (s); c.step (); c.nontriv (); bytes what = fmt ("%s, reply '%s'", suf.c_str (), v0.t ? v0.t : "right"); if (r.status) fail ("%s: ended with %d: %s", what.c_str (), r.status, r.err.substr (0, 500).c_str ());
    bytes want; for (int i = from; i < to; i++) want += fmt ("R %lld %zu 1\n", (long long)off[i], recs[i].raw.size ());
    want += fmt ("E end 0\nQ GET /data HTTP/1.1|range bytes=%lld-%s|auth |agent 1\n", (long long)(base + off[from]), open ? "" : fmt ("%lld", (long long)(base + off[to] - 1)).c_str ());
    if (r.out != want) fail ("%s: '%s' instead of '%s'", what.c_str (), r.out.c_str (), want.c_str ()); c.state (Hash ().s (r.out).s (what));
  }, "every range of records, open or not, near and far (2 and 4 GiB, 2^53, 9e18), with 15 right, unusual and malformed statements of the range in the reply"});

  // a server that proves nothing gets nothing, unless that is asked for
  untrusted ();
  cfg.scenarios.push_back ({"certificates", [=] (Ctx &c) {
    const char *no = c.one<const char *> ({NULL, "1", ""}), *dbg = c.one<const char *> ({NULL, "1"}); int kind = c.one<int> ({LENGTH, CHUNKED, CLOSE, REDIRECT, AUTH, S404}), up = c.pick (3), form = c.pick (2), again = c.pick (2);
    bytes suf = form ? fmt ("@%lld", (long long)off[1]) : "", secret = "me:secret";
    Spec s; s.fn = [=] () -> int {
      ms_loginit (quiet_log, NULL, count_err, NULL); if (no) setenv ("LIBMSEED_SSL_NOVERIFY", no, 1); else unsetenv ("LIBMSEED_SSL_NOVERIFY"); if (dbg) setenv ("LIBMSEED_URL_DEBUG", dbg, 1); else unsetenv ("LIBMSEED_URL_DEBUG");
      Server v; v.ctx = untrusted (); v.body = body; v.kind = (Kind)kind; v.secret = "Basic " + b64 (up == 2 ? "you:x" : secret); v.start (); if (up) ms3_url_userpassword (secret.c_str ()); if (up == 2) ms3_url_userpassword ("you:x");
      for (int i = 0; i <= again; i++) read_url (v.url () + suf, form ? MSF_PNAMERANGE : 0, body);
      v.finish (); printf ("N %zu\n", v.take ().size ()); fflush (stdout); _exit (0); return 0; };
    Out r = run (s); c.step (); c.nontriv (); if (r.status) fail ("ended with %d: %s", r.status, r.err.substr (0, 500).c_str ());
    bytes one; size_t nreq = 0; bool bad = kind == S404 || (kind == AUTH && !up);
    if (!no || bad) one = "E error 1\n"; else { for (size_t i = form ? 1 : 0; i < recs.size (); i++) one += fmt ("R %lld %zu 1\n", (long long)off[i], recs[i].raw.size ()); one += "E end 0\n"; }
    if (no) nreq = kind == REDIRECT ? 2 : kind == AUTH && up ? 2 : 1;
    bytes want = one + (again ? one : "") + fmt ("N %zu\n", nreq * (again + 1)); if (r.out != want) fail ("server that cannot be trusted, LIBMSEED_SSL_NOVERIFY %s: '%s' instead of '%s'", no ? no : "not set", r.out.c_str (), want.c_str ());
    if (!dbg != r.err.empty ()) fail ("LIBMSEED_URL_DEBUG %s: '%s' is printed", dbg ? dbg : "not set", r.err.substr (0, 500).c_str ());
    c.state (Hash ().s (r.out).i (!!dbg));
  }, "a TLS server with a certificate of its own for another host: verification on and off, debugging on and off, 6 kinds of replies, with two credentials and none, whole and from an offset, once and again"});

  // the program
  cfg.scenarios.push_back ({"program", [=] (Ctx &c) {
    int nh = c.pick (3), up = c.pick (3), k = c.pick (3), form = c.pick (3); bool exe = c.flip (); const char *bin = getenv ("MC_MSI"); if (exe && !bin) return;
    bytes suf = form == 1 ? fmt ("@%lld", (long long)off[2]) : form == 2 ? fmt ("@%lld-%lld", (long long)off[1], (long long)off[3] - 1) : "";
    Spec s; s.fn = [=] () -> int {
      Server v; v.body = body; v.kind = up ? AUTH : k == 2 ? S404 : k ? CHUNKED : LENGTH; v.secret = "Basic " + b64 (up == 2 ? "other:word" : "me:my word"); v.start ();
      std::vector<bytes> av = {"msi"}; for (int i = 0; i < nh; i++) { av.push_back ("-H"); av.push_back (HD[i ? 3 : 0]); } if (up) { av.push_back ("-u"); av.push_back ("me:my word"); } av.push_back (v.url () + suf);
      fflush (stdout); pid_t p = fork ();
      if (p == 0) { std::vector<char *> a; for (auto &x : av) a.push_back ((char *)x.c_str ()); a.push_back (NULL); if (exe) { execv (bin, a.data ()); _exit (126); } exit (msi_main (a.size () - 1, a.data ())); }
      int st; waitpid (p, &st, 0); printf ("X %d\n", WIFEXITED (st) ? WEXITSTATUS (st) : -1); v.finish (); for (auto &q : v.take ()) print_req (q); fflush (stdout); _exit (0); return 0; };
    Out r = run (s); c.step (); c.nontriv (); if (r.status) fail ("ended with %d: %s", r.status, r.err.substr (0, 500).c_str ());
    bool good = up == 2 ? false : up ? true : k < 2; bytes want; if (good) for (size_t i = form == 0 ? 0 : form == 1 ? 2 : 1; i < (form == 2 ? 3 : 4); i++) want += line (recs[i]);
    want += good ? "X 0\n" : "X 1\n"; bytes rg = form == 0 ? "" : form == 1 ? fmt ("bytes=%lld-", (long long)off[2]) : fmt ("bytes=%lld-%lld", (long long)off[1], (long long)off[3] - 1);
    bytes got = r.out.substr (0, r.out.find ("Q GET")); if (got != want) fail ("msi prints '%s' instead of '%s'; %s", got.c_str (), want.c_str (), r.err.c_str ());
    auto l = rows (r.out.substr (got.size ())); size_t nq = up ? 2 : 1; if (up != 2 && l.size () != nq) fail ("%zu requests instead of %zu", l.size (), nq);
    for (size_t i = 0; i < l.size () && i < nq; i++)
    {
      bytes f = fmt ("Q GET /data HTTP/1.1|range %s|auth %s|agent 0|", rg.c_str (), i ? ("Basic " + b64 ("me:my word")).c_str () : ""); if (l[i].compare (0, f.size (), f)) fail ("request '%s' instead of '%s...'", l[i].c_str (), f.c_str ());
      if (l[i].find ("|User-Agent: msi/") == bytes::npos || (nh > 0 && l[i].find ("|X-One: 1") == bytes::npos) || (nh > 1 && l[i].find ("|User-Agent: mine") == bytes::npos)) fail ("headers of '%s'", l[i].c_str ());
    }
    c.state (Hash ().s (r.out));
  }, "msi with up to two -H, -u right, wrong or absent, ranges, good and failing servers; run within the check and as built"});
  return mc::run (argc, argv, cfg);
}
