// Conversions between the library's integers and GMP (the oracle), and
// generators of interesting integers.
#ifndef VERIF_NUM_H
#define VERIF_NUM_H

#include <gmpxx.h>

#include <string>
#include <vector>

#include "pbt.h"
#include "walnut/big_int.h"

namespace gen {

using walnut::BigInt;
using walnut::BigIntWord;
using walnut::BigUInt;
using walnut::BigUIntWord;
using Z = mpz_class;
using Q = mpq_class;

inline Z ZFromWords(const std::vector<uint64_t>& words, bool is_signed) {
  Z r;
  mpz_import(r.get_mpz_t(), words.size(), -1, 8, 0, 0, words.data());
  if (is_signed && !words.empty() && (words.back() >> 63)) {
    Z m = 1;
    m <<= 64 * words.size();
    r -= m;
  }
  return r;
}

inline Z ToZ(const BigInt& v) {
  size_t n = v.used_words();
  if (n == 1) {
    int64_t x = static_cast<int64_t>(v.word(0).low_uint64());
    return Z(static_cast<long>(x));
  }
  std::vector<uint64_t> w(n);
  for (size_t i = 0; i < n; ++i) w[i] = v.word(i).low_uint64();
  return ZFromWords(w, true);
}

inline Z ToZ(const BigUInt& v) {
  std::vector<uint64_t> w(v.used_words());
  for (size_t i = 0; i < w.size(); ++i) w[i] = v.word(i).low_uint64();
  return ZFromWords(w, false);
}

inline uint64_t Low64(const Z& z) {
  Z m;
  mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), 64);
  uint64_t r = 0;
  size_t count = 0;
  mpz_export(&r, &count, -1, 8, 0, 0, m.get_mpz_t());
  return count ? r : 0;
}

// Builds a BigInt through its public interface. The digits are joined from the
// most significant word downwards.
inline BigInt FromZ(const Z& z) {
  if (z.fits_slong_p()) return BigInt(BigIntWord(z.get_si()));
  // Split into 32 bit digits so that every summand is non-negative.
  Z m = abs(z);
  size_t digits = (mpz_sizeinbase(m.get_mpz_t(), 2) + 31) / 32;
  BigInt r(0);
  for (size_t i = digits; i-- > 0;) {
    Z d;
    mpz_fdiv_q_2exp(d.get_mpz_t(), m.get_mpz_t(), 32 * i);
    mpz_fdiv_r_2exp(d.get_mpz_t(), d.get_mpz_t(), 32);
    r = (r << 32) + BigInt(BigIntWord(d.get_si()));
  }
  if (z < 0) r = BigInt(0) - r;
  return r;
}

// Same, and the result is checked against the oracle.
inline BigInt CheckedFromZ(const Z& z) {
  BigInt r = FromZ(z);
  Z back = ToZ(r);
  PBT_CHECK(back == z, "building the integer " << z << " from 32 bit digits gave " << back);
  return r;
}

inline Z Pow2(size_t n) {
  Z r = 1;
  r <<= n;
  return r;
}

// Random integer with up to `max_words` 64 bit words. Words take special bit
// patterns often, because carries and trimming depend on them.
inline Z GenZ(pbt::Src& s, size_t max_words) {
  Z r;
  switch (s.draw(8)) {
    case 0:
      return Z(static_cast<long>(s.range(-3, 3)));
    case 1:
      return Z(static_cast<long>(s.range(-1000, 1000)));
    case 2:
    case 3: {
      // Near a power of two that matters to the representation.
      static const int kExp[] = {31, 32, 63, 64, 62, 65, 95, 96, 127, 128,
                                 191, 192, 193, 255, 256};
      size_t e = kExp[s.draw(sizeof(kExp) / sizeof(kExp[0]))];
      if (e > 64 * max_words) e = 64 * max_words;
      r = Pow2(e) + Z(static_cast<long>(s.range(-3, 3)));
      break;
    }
    case 4:
      r = Z(static_cast<long>(s.draw(1ULL << 32)));
      break;
    default: {
      size_t n = s.size(1, max_words);
      std::vector<uint64_t> w(n);
      for (auto& x : w) {
        switch (s.draw(8)) {
          case 0: x = 0; break;
          case 1: x = ~0ULL; break;
          case 2: x = 1ULL << 63; break;
          case 3: x = (1ULL << 63) - 1; break;
          case 4: x = s.draw(4); break;
          case 5: x = 0xffffffffULL << (s.flip() ? 32 : 0); break;
          default: x = s.bits64(); break;
        }
      }
      r = ZFromWords(w, s.flip());
      return r;
    }
  }
  if (s.flip()) r = -r;
  return r;
}

// Small integer coordinate, sometimes scaled far out.
inline bool MultiWord(const Z& z) {
  return z >= Pow2(63) || z < -Pow2(63);
}

inline std::string Str(const Z& z) { return z.get_str(); }

inline int Sgn(const Z& z) { return sgn(z); }
inline int SgnI(long v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }

}  // namespace gen
#endif
