// A small independent JSON document model: parser, RFC 6901 pointers, RFC 7386 merge patch.
#pragma once
#include "ref.hpp"
namespace js {
using ref::bytes;
struct J
{
  char t = 'z'; // z null, b bool, i integer, n real, s string, a array, o object
  bool b = false; int64_t i = 0; double d = 0; bytes s;
  std::vector<J> a; std::vector<std::pair<bytes, J>> o;
  static J I (int64_t v) { J j; j.t = 'i'; j.i = v; return j; }
  static J N (double v) { J j; j.t = 'n'; j.d = v; return j; }
  static J S (const bytes &v) { J j; j.t = 's'; j.s = v; return j; }
  static J B (bool v) { J j; j.t = 'b'; j.b = v; return j; }
  static J O () { J j; j.t = 'o'; return j; }
  static J A () { J j; j.t = 'a'; return j; }
  J *key (const bytes &k) { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
  const J *key (const bytes &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
  J &put (const bytes &k, const J &v) { if (J *x = key (k)) { *x = v; return *x; } o.push_back ({k, v}); return o.back ().second; }
  void del (const bytes &k) { for (size_t n = 0; n < o.size (); n++) if (o[n].first == k) { o.erase (o.begin () + n); return; } }
};
inline bool eq (const J &x, const J &y)
{
  if (x.t != y.t) return false;
  switch (x.t)
  {
  case 'b': return x.b == y.b;
  case 'i': return x.i == y.i;
  case 'n': return x.d == y.d;
  case 's': return x.s == y.s;
  case 'a': if (x.a.size () != y.a.size ()) return false; for (size_t n = 0; n < x.a.size (); n++) if (!eq (x.a[n], y.a[n])) return false; return true;
  case 'o': if (x.o.size () != y.o.size ()) return false; for (auto &p : x.o) { const J *q = y.key (p.first); if (!q || !eq (p.second, *q)) return false; } return true;
  }
  return true;
}
inline bytes dump (const J &x)
{
  switch (x.t)
  {
  case 'b': return x.b ? "true" : "false";
  case 'i': return mc::fmt ("%lld", (long long)x.i);
  case 'n': { bytes s = mc::fmt ("%.17g", x.d); if (s.find_first_of (".en") == bytes::npos) s += ".0"; return s; }
  case 's': { bytes r = "\""; for (unsigned char c : x.s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += mc::fmt ("\\u%04x", c); else r += c; } return r + "\""; }
  case 'a': { bytes r = "["; for (size_t n = 0; n < x.a.size (); n++) r += (n ? "," : "") + dump (x.a[n]); return r + "]"; }
  case 'o': { bytes r = "{"; for (size_t n = 0; n < x.o.size (); n++) r += (n ? "," : "") + dump (J::S (x.o[n].first)) + ":" + dump (x.o[n].second); return r + "}"; }
  }
  return "null";
}
struct Parser
{
  const bytes &s; size_t p = 0; bool ok = true;
  Parser (const bytes &t) : s (t) {}
  void ws () { while (p < s.size () && strchr (" \t\r\n", s[p]) && s[p]) p++; }
  static void utf8 (bytes &o, uint32_t c)
  {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  bool str (bytes &o)
  {
    if (p >= s.size () || s[p] != '"') return ok = false;
    p++;
    while (p < s.size () && s[p] != '"')
    {
      unsigned char c = s[p];
      if (c < 32) return ok = false;
      if (c != '\\') { o += c; p++; continue; }
      if (++p >= s.size ()) return ok = false;
      switch (s[p])
      {
      case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
      case '"': case '\\': case '/': o += s[p]; break;
      case 'u': { if (p + 4 >= s.size ()) return ok = false; uint32_t u = strtoul (s.substr (p + 1, 4).c_str (), nullptr, 16); p += 4;
        if (u >= 0xd800 && u < 0xdc00 && p + 6 < s.size ()) { uint32_t v = strtoul (s.substr (p + 3, 4).c_str (), nullptr, 16); u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00); p += 6; }
        utf8 (o, u); break; }
      default: return ok = false;
      }
      p++;
    }
    if (p >= s.size ()) return ok = false;
    p++;
    return true;
  }
  J val ()
  {
    J j; ws ();
    if (p >= s.size ()) { ok = false; return j; }
    char c = s[p];
    if (c == '{')
    {
      j.t = 'o'; p++; ws ();
      if (p < s.size () && s[p] == '}') { p++; return j; }
      for (;;)
      {
        ws (); bytes k; if (!str (k)) return j;
        ws (); if (p >= s.size () || s[p++] != ':') { ok = false; return j; }
        J v = val (); if (!ok) return j;
        j.o.push_back ({k, v});
        ws (); if (p >= s.size ()) { ok = false; return j; }
        if (s[p] == ',') { p++; continue; }
        if (s[p] == '}') { p++; return j; }
        ok = false; return j;
      }
    }
    if (c == '[')
    {
      j.t = 'a'; p++; ws ();
      if (p < s.size () && s[p] == ']') { p++; return j; }
      for (;;)
      {
        J v = val (); if (!ok) return j;
        j.a.push_back (v);
        ws (); if (p >= s.size ()) { ok = false; return j; }
        if (s[p] == ',') { p++; continue; }
        if (s[p] == ']') { p++; return j; }
        ok = false; return j;
      }
    }
    if (c == '"') { j.t = 's'; str (j.s); return j; }
    if (s.compare (p, 4, "true") == 0) { j.t = 'b'; j.b = true; p += 4; return j; }
    if (s.compare (p, 5, "false") == 0) { j.t = 'b'; p += 5; return j; }
    if (s.compare (p, 4, "null") == 0) { p += 4; return j; }
    size_t e = s.find_first_not_of ("+-0123456789.eE", p); if (e == bytes::npos) e = s.size ();
    bytes num = s.substr (p, e - p);
    if (num.empty () || (!isdigit ((unsigned char)num[0]) && num[0] != '-')) { ok = false; return j; }
    if (num.find_first_of (".eE") == bytes::npos) { j.t = 'i'; errno = 0; j.i = strtoll (num.c_str (), nullptr, 10); if (errno) { j.t = 'n'; j.d = strtod (num.c_str (), nullptr); } }
    else { j.t = 'n'; j.d = strtod (num.c_str (), nullptr); }
    p = e;
    return j;
  }
};
inline bool parse (const bytes &s, J &out) { Parser q (s); out = q.val (); q.ws (); return q.ok && q.p == s.size (); }

inline bool tokens (const bytes &ptr, std::vector<bytes> &t)
{
  if (ptr.empty ()) return true;
  if (ptr[0] != '/') return false;
  bytes cur;
  for (size_t i = 1; i <= ptr.size (); i++)
  {
    if (i == ptr.size () || ptr[i] == '/') { t.push_back (cur); cur.clear (); continue; }
    if (ptr[i] == '~') { if (i + 1 < ptr.size () && (ptr[i + 1] == '0' || ptr[i + 1] == '1')) { cur += ptr[++i] == '0' ? '~' : '/'; continue; } return false; }
    cur += ptr[i];
  }
  return true;
}
inline bool index (const bytes &t, size_t n, size_t &i)
{
  if (t.empty () || t.size () > 9 || (t.size () > 1 && t[0] == '0')) return false;
  for (char c : t) if (!isdigit ((unsigned char)c)) return false;
  i = atoi (t.c_str ());
  return i < n;
}
inline J *get (J &root, const bytes &ptr)
{
  std::vector<bytes> t; if (!tokens (ptr, t)) return nullptr;
  J *x = &root; size_t i;
  for (auto &k : t)
  {
    if (x->t == 'o') { x = x->key (k); if (!x) return nullptr; }
    else if (x->t == 'a') { if (!index (k, x->a.size (), i)) return nullptr; x = &x->a[i]; }
    else return nullptr;
  }
  return x;
}
// create or replace the addressed value; missing objects on the way are created
inline bool set (J &root, const bytes &ptr, const J &v)
{
  std::vector<bytes> t; if (!tokens (ptr, t)) return false;
  if (t.empty ()) { root = v; return true; }
  J copy = root; J *x = &copy; size_t i;
  for (size_t n = 0; n < t.size (); n++)
  {
    bool last = n + 1 == t.size ();
    if (x->t == 'o') { J *y = x->key (t[n]); if (!y) y = &x->put (t[n], J::O ()); if (last) *y = v; x = y; }
    else if (x->t == 'a') { if (!index (t[n], x->a.size (), i)) return false; if (last) x->a[i] = v; x = &x->a[i]; }
    else return false;
  }
  root = copy;
  return true;
}
inline J merge (const J *target, const J &patch)
{
  if (patch.t != 'o') return patch;
  J r = target && target->t == 'o' ? *target : J::O ();
  for (auto &p : patch.o)
  {
    if (p.second.t == 'z') r.del (p.first);
    else { J *x = r.key (p.first); J m = merge (x, p.second); r.put (p.first, m); }
  }
  return r;
}
} // namespace js
