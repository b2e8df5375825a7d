// The encrypted form of a file: DES in cipher block chaining mode, last block padded and ended by its own length.
#pragma once
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/des.h>
#include <string>
#include <cstring>
#include <cstdint>
inline void des_pad(uint64_t seed, uint8_t *p) { for (int i = 0; i < 8; ++i) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; p[i] = seed >> 56; } }
inline bool des_key_bytes(const std::string &k, uint8_t *b) {
  memset(b, 0, 8);
  bool hex = k.size() > 1 && k[0] == '0' && (k[1] == 'x' || k[1] == 'X'), bin = k.size() > 1 && k[0] == '0' && (k[1] == 'b' || k[1] == 'B');
  if (hex) { if (k.size() < 18) return false; for (int i = 0; i < 8; ++i) b[i] = (uint8_t)strtol(k.substr(2 + 2 * i, 2).c_str(), nullptr, 16); }
  else if (bin) { if (k.size() < 66) return false; for (int i = 0; i < 64; ++i) b[i / 8] = b[i / 8] << 1 | (k[2 + i] == '1'); }
  else {   // the top bit of every character becomes the odd parity of the others
    for (int i = 0; i < 8 && i < (int)k.size(); ++i) b[i] = k[i];
    for (int i = 0; i < 8; ++i) b[i] = (b[i] & 0x7f) | (__builtin_popcount(b[i] & 0x7f) % 2 ? 0 : 0x80);
  }
  return true;
}
inline void des_schedule(const std::string &k, DES_key_schedule *s) { uint8_t b[8]; des_key_bytes(k, b); DES_set_odd_parity(&b); DES_set_key_unchecked(&b, s); }
inline std::string des_enc(const std::string &k, const std::string &d, const uint8_t *pad) {
  if (d.empty()) return ""; DES_key_schedule s; des_schedule(k, &s); std::string x = d, o; int n = d.size() % 8; x.append((const char *)pad, 8 - n); x.back() = (char)n;
  o.resize(x.size()); DES_cblock iv = {0}; DES_ncbc_encrypt((const uint8_t *)x.data(), (uint8_t *)&o[0], x.size(), &s, &iv, DES_ENCRYPT); return o;
}
// what can be told from the front of the file; ok: the file is whole
inline std::string des_dec(const std::string &k, const std::string &d, bool &ok) {
  ok = true; if (d.empty()) return ""; DES_key_schedule s; des_schedule(k, &s); size_t n = d.size() / 8 * 8; std::string o(n, 0); DES_cblock iv = {0}; if (n) DES_ncbc_encrypt((const uint8_t *)d.data(), (uint8_t *)&o[0], n, &s, &iv, DES_DECRYPT);
  if (d.size() % 8) { ok = false; return o; }
  unsigned l = (unsigned char)o.back(); o.resize(n - 8 + (l < 8 ? l : 0)); ok = l < 8; return o;
}
