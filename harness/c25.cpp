// C25: decoding any text stays within the text and the result.
#include "harness/b64.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;
using namespace b64;
using B = bezman::utils::Base64;

struct Text {
  std::string s;
  bool plain = true;           // padding (at most two) only at the end
  Bytes b;                     // decoded bytes
  std::vector<char> defined;   // byte made of alphabet characters only
};
Text text(const std::string &s) {
  Text t;
  t.s = s;
  size_t pad = 0;
  while (pad < 2 && pad < s.size() && s[s.size() - 1 - pad] == '=') pad++;
  for (size_t i = 0; i + pad < s.size(); i++)
    if (s[i] == '=') t.plain = false;
  t.b.assign(s.size() / 4 * 3 - pad, 0);
  t.defined.assign(t.b.size(), 0);
  for (size_t i = 0; i < t.b.size(); i++) {
    const size_t g = i / 3 * 4, k = i % 3;
    const int x = val(s[g + k]), y = val(s[g + k + 1]);
    if (x < 0 || y < 0) continue;
    t.defined[i] = 1;
    t.b[i] = static_cast<unsigned char>(k == 0 ? x << 2 | y >> 4 : k == 1 ? x << 4 | y >> 2 : x << 6 | y);
  }
  return t;
}
template <class T, class S>  // S: scalar the bytes are made of, D per entry
bool decode(Ctx &c, const Text &t, std::size_t D, const char *name) {
#ifndef NDEBUG
  // documented precondition of assertion-enabled builds
  if (D > 1 && t.b.size() / sizeof(S) % D != 0) return true;
#endif
  const std::size_t n = t.b.size() / sizeof(S) / D;
  // an exactly sized copy on the heap
  const std::string in(t.s);
  const auto v = B::Decode<T>(in);
  c.transitions++;
  if (!c.expect(in == t.s, "text changed")) return false;
  if (!t.plain) {
    // padding inside of the text: no defined value, but never more entries
    // than there are bytes
    return c.expect(v.size() <= t.s.size() / 4 * 3 / sizeof(S) / D, cat(v.size(), " entries of ", name, " from ", show(t.s)));
  }
  if (!c.expect(v.size() == n, cat(v.size(), " entries of ", name, " instead of ", n, " from ", show(t.s)))) return false;
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t d = 0; d < D; d++) {
      const unsigned char *p = reinterpret_cast<const unsigned char *>(&v[i]) + d * sizeof(S);
      for (std::size_t k = 0; k < sizeof(S); k++) {
        const std::size_t at = (i * D + d) * sizeof(S) + k;
        if (t.defined[at] && p[k] != t.b[at])
          return c.expect(false, cat("byte ", at, " of ", name, " is ", int(p[k]), " instead of ", int(t.b[at]), " from ", show(t.s)));
      }
    }
  return true;
}
bool all(Ctx &c, const std::string &s, bool points = true) {
  const Text t = text(s);
  bool ok = decode<unsigned char, unsigned char>(c, t, 1, "u8") && decode<uint16_t, uint16_t>(c, t, 1, "u16") && decode<Blob<3>, Blob<3>>(c, t, 1, "b3") &&
            decode<float, float>(c, t, 1, "float") && decode<Blob<5>, Blob<5>>(c, t, 1, "b5") && decode<double, double>(c, t, 1, "double") &&
            decode<Blob<7>, Blob<7>>(c, t, 1, "b7");
  if (ok && points)
    ok = decode<bezman::Point<2, unsigned char>, unsigned char>(c, t, 2, "point 2 u8") && decode<bezman::Point<1, double>, double>(c, t, 1, "point 1 double") &&
         decode<bezman::Point<2, float>, float>(c, t, 2, "point 2 float") && decode<bezman::Point<3, double>, double>(c, t, 3, "point 3 double") &&
         decode<bezman::Point<3, signed char>, signed char>(c, t, 3, "point 3 i8");
  c.state(hstr(s));
  return ok;
}
#ifdef NDEBUG
// texts that end in the middle of a group: whatever the entries, only memory
// of the text and the result may be touched (checked by the sanitizer), and
// there are no more entries than bytes
template <class T>
bool safe(Ctx &c, const std::string &s) {
  const std::string in(s);
  c.transitions++;
  const std::size_t n = B::Decode<T>(in).size();
  return c.expect(in == s, "text changed") && c.expect(n * sizeof(T) <= (s.size() + 3) / 4 * 3, cat(n, " entries of ", sizeof(T), " bytes from ", show(s)));
}
#endif
void explore(Ctx &c) {
  const int L = c.level;
#ifdef NDEBUG
  for (std::size_t n = 0; n <= (L == 2 ? 2000u : 400u); n++)
    c.scenario([&] { return cat("truncated/", n); },
               [&] {
                 for (int pad = 0; pad <= 4; pad++)
                   for (char fill : {'A', 'z', '=', '\0', '\xff'}) {
                     std::string s(n, fill);
                     for (int i = 0; i < pad && i < static_cast<int>(n); i++) s[n - 1 - i] = '=';
                     if (!safe<unsigned char>(c, s) || !safe<double>(c, s) || !safe<float>(c, s) || !safe<Blob<3>>(c, s) || !safe<Blob<7>>(c, s) || !safe<bezman::Point<2, float>>(c, s) ||
                         !safe<bezman::Point<3, double>>(c, s))
                       return;
                     c.state(hstr(s));
                   }
               });
#endif
  // every text of one group over representatives of all character classes
  const std::string cls = std::string("A/=QzZ9+a\x80\xff!", 12) + std::string(1, '\0') + "\xc3";
  for (char a : cls)
    for (char b : cls)
      c.scenario([&] { return cat("group/", show(std::string{a, b})); },
                 [&] {
                   for (char d : cls)
                     for (char e : cls)
                       if (!all(c, {a, b, d, e})) return;
                 });
  // every text of two groups over six characters
  const std::string six = std::string("A/=\x80") + (L ? "z!" : "");
  for (char a : six)
    for (char b : six)
      for (char d : six)
        c.scenario([&] { return cat("two/", show(std::string{a, b, d})); },
                   [&] {
                     std::string s(8, 'A');
                     s[0] = a, s[1] = b, s[2] = d;
                     const size_t n = six.size();
                     size_t tot = n * n * n * n * (L == 2 ? n : 1);
                     for (size_t i = 0; i < tot; i++) {
                       size_t r = i;
                       for (int k = L == 2 ? 3 : 4; k < 8; k++) s[k] = six[r % n], r /= n;
                       if (!all(c, s)) return;
                     }
                   });
  // every character at every position, all lengths and endings
  const int G = L == 2 ? 40 : L ? 16 : 9;
  for (int g = 0; g <= G; g++)
    for (int pad = 0; pad <= 3; pad++) {
      if (g == 0 && pad) continue;
      c.scenario([&] { return cat("position/", g, "/", pad); },
                 [&] {
                   std::string s;
                   for (int i = 0; i < 4 * g; i++) s += AL[mix(i * 7 + g) % 64];
                   for (int i = 0; i < pad; i++) s[4 * g - 1 - i] = '=';
                   if (!all(c, s)) return;
                   for (int i = 0; i < 4 * g; i++)
                     for (int x = 0; x < 256; x++) {
                       std::string u = s;
                       u[i] = static_cast<char>(x);
                       if (!all(c, u)) return;
                     }
                 });
    }
  // texts of constant characters
  for (int g = 0; g <= 3 * G; g++)
    c.scenario([&] { return cat("constant/", g); },
               [&] {
                 for (char a : cls)
                   if (!all(c, std::string(4 * g, a))) return;
                 for (int x = 0; x < 256; x++)
                   if (!all(c, std::string(4 * g, static_cast<char>(x)), g < 10)) return;
               });
}
