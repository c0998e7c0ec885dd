// C14: base64 export is canonical and round-trips.
#include "harness/b64.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;
using namespace b64;
using B = bezman::utils::Base64;

template <class T>
bool roundtrip(Ctx &c, const std::vector<T> &v) {
  const Bytes b = bytes(v);
  const std::string s = B::Encode(v), e = enc(b);
  c.transitions += 2;
  if (!c.expect(s == e, cat("encoded as ", show(s), " instead of ", e))) return false;
  const std::vector<T> d = B::Decode<T>(s);
  if (!c.expect(d.size() == v.size(), cat(d.size(), " entries decoded instead of ", v.size(), " from ", s))) return false;
  return c.expect(bytes(d) == b, cat("decoded bytes differ for ", s));
}
template <class T>
void lists(Ctx &c, const std::string &name, int maxlen) {
  for (int n = 0; n <= maxlen; n++) {
    const int nb = n * static_cast<int>(sizeof(T));
    c.scenario([&] { return cat("list/", name, "/", n); },
               [&] {
                 std::vector<Bytes> all;
                 for (int x : {0, 255, 0x55, 0xaa, 0x0f, 0xf0, 1, 128, 0x3f, 0xfc}) all.push_back(Bytes(nb, static_cast<unsigned char>(x)));
                 for (int k = 1; k <= 5; k++) {
                   Bytes b(nb);
                   for (int i = 0; i < nb; i++) b[i] = static_cast<unsigned char>(mix(i * 31 + k));
                   all.push_back(b);
                 }
                 // one byte at every position (all values for short lists)
                 for (int i = 0; i < nb; i++)
                   for (int x = 0; x < 256; x += nb <= 24 ? 1 : 37) {
                     Bytes b(nb, 0);
                     b[i] = static_cast<unsigned char>(x);
                     all.push_back(b);
                     if (nb <= 12) {
                       Bytes f(nb, 0xff);
                       f[i] = static_cast<unsigned char>(x);
                       all.push_back(f);
                     }
                   }
                 if (nb == 0) all = {Bytes()};
                 for (const auto &b : all) {
                   auto v = entries<T>(b);
                   c.state(hstr(std::string(b.begin(), b.end())));
                   if (!roundtrip(c, v)) return;
                   // whatever lies behind the list must not matter
                   std::vector<T> w;
                   w.reserve(v.size() + 2);
                   for (int fill : {0x00, 0xff}) {
                     w.resize(v.size() + 2);
                     std::memset(static_cast<void *>(w.data() + v.size()), fill, 2 * sizeof(T));
                     if (!v.empty()) std::memcpy(static_cast<void *>(w.data()), v.data(), v.size() * sizeof(T));
                     w.resize(v.size());
                     if (!c.expect(B::Encode(w) == enc(b), "text depends on the memory behind the list")) return;
                     c.transitions++;
                   }
                 }
               });
  }
}
template <std::size_t D, class T>
void points(Ctx &c, const std::string &name, int maxlen) {
  using P = bezman::Point<D, T>;
  for (int n = 0; n <= maxlen; n++)
    c.scenario([&] { return cat("points/", name, "/", D, "/", n); },
               [&] {
                 for (int k = 0; k < 40; k++) {
                   std::vector<P> v(n);
                   std::vector<T> flat;
                   for (int i = 0; i < n; i++)
                     for (std::size_t d = 0; d < D; d++) {
                       const uint64_t h = mix(mix(k * 1000003u + i) + d);
                       T x;
                       if constexpr (std::is_floating_point_v<T>) {
                         static const T sp[] = {T(0), -T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(),
                                                std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), T(1), T(-1) / 3};
                         x = k < 12 ? sp[(h + k) % 10] : static_cast<T>((static_cast<double>(h % 100000) - 50000) / 7);
                       } else
                         x = static_cast<T>(h);
                       v[i][d] = x;
                       flat.push_back(x);
                     }
                   Bytes b = bytes(flat);
                   const std::string s = B::Encode(v);
                   if (!c.expect(s == enc(b), "text of points differs from the text of their coordinates")) return;
                   const auto d = B::Decode<P>(s);
                   if (!c.expect(d.size() == v.size(), cat(d.size(), " points decoded instead of ", v.size()))) return;
                   for (int i = 0; i < n; i++)
                     if (!c.expect(std::memcmp(&d[i][0], &v[i][0], D * sizeof(T)) == 0, cat("point ", i, " differs after decoding"))) return;
                   c.transitions += 2;
                   c.state(hstr(s));
                 }
               });
}
// every length up to a bound, and lengths around the powers of two
template <class T>
void lengths(Ctx &c, const std::string &name, int upto) {
  const auto one = [&](std::size_t n) {
    for (int k = 0; k < 3; k++) {
      Bytes b(n * sizeof(T));
      for (std::size_t i = 0; i < b.size(); i++) b[i] = k == 0 ? 0xff : k == 1 ? static_cast<unsigned char>(mix(i * 31 + n)) : static_cast<unsigned char>(i);
      if (!roundtrip(c, entries<T>(b))) return false;
    }
    c.state(n);
    return true;
  };
  for (int lo = 0; lo < upto; lo += 64)
    c.scenario([&] { return cat("lengths/", name, "/", lo); },
               [&] {
                 for (int n = lo; n < lo + 64; n++)
                   if (!one(static_cast<std::size_t>(n))) return;
               });
  for (int k = 9; k <= (c.level ? 22 : 20); k++)
    c.scenario([&] { return cat("lengths/", name, "/2^", k); },
               [&] {
                 const std::size_t m = std::size_t(1) << k;
                 const std::size_t lo = m / sizeof(T) < 5 ? 0 : m / sizeof(T) - 5;
                 for (std::size_t n = lo; n < lo + 10; n++)
                   if (!one(n)) return;
                 // the text, too, has this size
                 const std::size_t q = m / 4 * 3 / sizeof(T);
                 for (std::size_t n = q < 3 ? 0 : q - 3; n < q + 4; n++)
                   if (!one(n)) return;
               });
}
void explore(Ctx &c) {
  const int L = c.level;
  if (PART == 1) {
    lengths<unsigned char>(c, "u8", L ? 8192 : 2048);
    // every list of up to three bytes
    for (int a = 0; a < 256; a++)
      c.scenario([&] { return cat("bytes/", a); },
                 [&] {
                   const unsigned char ua = static_cast<unsigned char>(a);
                   if (!roundtrip<unsigned char>(c, {ua})) return;
                   for (int b = 0; b < 256; b++) {
                     const unsigned char ub = static_cast<unsigned char>(b);
                     if (!roundtrip<unsigned char>(c, {ua, ub})) return;
                     if (L)
                       for (int d = 0; d < 256; d++)
                         if (!roundtrip<unsigned char>(c, {ua, ub, static_cast<unsigned char>(d)})) return;
                   }
                   c.state(a);
                 });
  }
  if (PART == 2) {
    const int m = L == 2 ? 4 : 1;
    lengths<uint16_t>(c, "u16", L ? 4096 : 512);
    lengths<Blob<3>>(c, "b3", L ? 4096 : 512);
    lengths<float>(c, "float", L ? 4096 : 512);
    lengths<double>(c, "double", L ? 4096 : 512);
    lengths<Blob<24>>(c, "b24", L ? 2048 : 256);
    lists<unsigned char>(c, "u8", 40 * m);
    lists<signed char>(c, "i8", 13 * m);
    lists<char>(c, "char", 13 * m);
    lists<uint16_t>(c, "u16", 20 * m);
    lists<int16_t>(c, "i16", 8 * m);
    lists<Blob<3>>(c, "b3", 12 * m);
    lists<uint32_t>(c, "u32", 10 * m);
    lists<int>(c, "int", 8 * m);
    lists<float>(c, "float", 10 * m);
    lists<Blob<5>>(c, "b5", 9 * m);
    lists<Blob<6>>(c, "b6", 7 * m);
    lists<Blob<7>>(c, "b7", 7 * m);
    lists<double>(c, "double", 9 * m);
    lists<uint64_t>(c, "u64", 6 * m);
    lists<Blob<9>>(c, "b9", 6 * m);
    lists<Blob<10>>(c, "b10", 6 * m);
    lists<Blob<11>>(c, "b11", 6 * m);
    lists<long double>(c, "ld", 5 * m);
    const int p = L ? 8 * m : 4;
    points<1, double>(c, "double", p);
    points<2, double>(c, "double", p);
    points<3, double>(c, "double", p);
    points<4, double>(c, "double", p);
    points<1, float>(c, "float", p);
    points<2, float>(c, "float", p);
    points<3, float>(c, "float", p);
    points<5, float>(c, "float", p);
    points<1, signed char>(c, "i8", p);
    points<2, signed char>(c, "i8", p);
    points<5, unsigned char>(c, "u8", p);
    points<3, int16_t>(c, "i16", p);
    points<3, int>(c, "int", p);
  }
}
