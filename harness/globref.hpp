// Independent reading of the documented pattern language of selections and the program.
#pragma once
#include "ref.hpp"
namespace ref {
// ---- independent reading of the documented pattern language: pattern -> tokens, tokens matched by full search
struct Tok { int kind; unsigned char ch; bool neg; std::vector<std::pair<unsigned char, unsigned char>> rng; }; // 0 char 1 any 2 star 3 set
inline int tokens (const bytes &p, std::vector<Tok> &out) // 0 documented, 1 not documented (no judgement)
{
  for (size_t i = 0; i < p.size ();)
  {
    Tok t{0, 0, false, {}};
    unsigned char c = p[i++];
    if (c == '*') t.kind = 2;
    else if (c == '?') t.kind = 1;
    else if (c == '\\') { if (i < p.size ()) c = p[i++]; else return 1; t.ch = c; }
    else if (c == '[')
    {
      t.kind = 3;
      if (i < p.size () && p[i] == '^') { t.neg = true; i++; }
      bool first = true, closed = false;
      while (i < p.size ())
      {
        unsigned char a = p[i];
        if (a == ']' && !first) { closed = true; i++; break; }
        first = false;
        if (a == '\\') return 1;
        i++;
        if (i < p.size () && p[i] == '-')
        {
          if (i + 1 >= p.size ()) return 1;
          unsigned char b = p[i + 1];
          if (b == ']' || b == '\\') return 1;
          if (i + 2 < p.size () && p[i + 2] == '-') return 1; // a-b-
          t.rng.push_back ({a, b});
          if (a > b) t.rng.push_back ({b, b}), t.rng.push_back ({a, a});
          i += 2;
        }
        else t.rng.push_back ({a, a});
      }
      if (!closed) return 1;
    }
    else t.ch = c;
    out.push_back (t);
  }
  return 0;
}
inline bool tokmatch (const std::vector<Tok> &t, const bytes &s)
{
  std::vector<char> cur (s.size () + 1, 0), nxt;
  cur[0] = 1;
  for (auto &k : t)
  {
    nxt.assign (s.size () + 1, 0);
    if (k.kind == 2) { bool on = false; for (size_t i = 0; i <= s.size (); i++) { on |= cur[i]; nxt[i] = on; } }
    else
      for (size_t i = 0; i < s.size (); i++) if (cur[i])
      {
        unsigned char c = s[i];
        bool ok = k.kind == 1;
        if (k.kind == 0) ok = c == k.ch;
        if (k.kind == 3) { bool in = false; for (auto &r : k.rng) if (c >= r.first && c <= r.second) in = true; ok = in != k.neg; }
        if (ok) nxt[i + 1] = 1;
      }
    cur = nxt;
  }
  return cur[s.size ()];
}
} // namespace ref
