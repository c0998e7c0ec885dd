// Independent base64 reference.
#pragma once
#include <string>
#include <vector>

#include "bezman/src/utils/base64.hpp"
#include "mc/core.hpp"
namespace b64 {
static const char *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
using Bytes = std::vector<unsigned char>;
inline int val(char ch) {
  for (int i = 0; i < 64; i++)
    if (AL[i] == ch) return i;
  return -1;
}
inline std::string enc(const Bytes &b) {
  std::string s;
  unsigned acc = 0;
  int bits = 0;
  for (unsigned char x : b) {
    acc = (acc << 8 | x) & 0xffffff;
    bits += 8;
    while (bits >= 6) s += AL[acc >> (bits -= 6) & 63];
  }
  if (bits) s += AL[acc << (6 - bits) & 63];
  while (s.size() % 4) s += '=';
  return s;
}
template <int N>
struct Blob {  // an entry of N bytes
  unsigned char b[N];
};
template <class T>
Bytes bytes(const std::vector<T> &v) {
  Bytes r(v.size() * sizeof(T));
  if (!v.empty()) std::memcpy(r.data(), v.data(), r.size());
  return r;
}
template <class T>
std::vector<T> entries(const Bytes &b) {
  std::vector<T> r(b.size() / sizeof(T));
  if (!r.empty()) std::memcpy(r.data(), b.data(), r.size() * sizeof(T));
  return r;
}
inline std::string show(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    char t[8];
    if (ch > 32 && ch < 127 && ch != '\\')
      r += static_cast<char>(ch);
    else {
      std::snprintf(t, sizeof t, "\\x%02x", ch);
      r += t;
    }
  }
  return r;
}
}  // namespace b64
