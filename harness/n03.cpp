// N03: shifts, limits, conversions, printing and word primitives.
#include "num.h"

#include <cfloat>
#include <cmath>

using namespace gen;
using walnut::BigUIntWord;

namespace {

Z ZOfDouble(long double v, int* exp) {
  // v = m * 2^exp with an integer m
  int e;
  long double m = std::frexp(v, &e);
  m = std::ldexp(m, 64);
  e -= 64;
  bool neg = m < 0;
  uint64_t u = static_cast<uint64_t>(neg ? -m : m);
  Z r = ZFromWords({u}, false);
  if (neg) r = -r;
  *exp = e;
  return r;
}

// |v - z| <= ulp, where the floating type has `mant` bits.
void CheckFloat(long double v, const Z& z, int mant, const char* what) {
  if (z == 0) {
    PBT_CHECK(v == 0, what << " of 0 is " << (double)v);
    return;
  }
  // Integers beyond the largest finite value become the infinity of their sign.
  size_t max_exp = mant == DBL_MANT_DIG ? DBL_MAX_EXP : LDBL_MAX_EXP;
  Z mag = abs(z);
  bool may_overflow = mag > Pow2(max_exp) - Pow2(max_exp - mant + 1);
  PBT_CHECK(!std::isnan(v), what << " of " << z << " is not a number");
  if (std::isinf(v)) {
    PBT_CHECK(may_overflow, what << " of " << z << " is infinite");
    PBT_CHECK((v < 0) == (z < 0), what << " of " << z << " is the wrong infinity");
    return;
  }
  PBT_CHECK((v < 0) == (z < 0) && v != 0, what << " of " << z << " has the wrong sign");
  int exp;
  Z m = ZOfDouble(v, &exp);
  Q got(m);
  if (exp >= 0) got *= Q(Pow2(exp)); else got /= Q(Pow2(-exp));
  Q err = abs(Q(got - Q(z)));
  size_t bits = mpz_sizeinbase(z.get_mpz_t(), 2);
  if (bits <= static_cast<size_t>(mant)) {
    PBT_CHECK(err == 0, what << " of the representable " << z << " is off by " << err);
  }
  // Within one unit in the last place of the exact value.
  Q ulp(1);
  if (bits > static_cast<size_t>(mant)) ulp = Q(Pow2(bits - mant));
  PBT_CHECK(err <= ulp, what << " of " << z << " is off by " << err << " (ulp " << ulp << ")");
}

uint64_t GenWord(pbt::Src& s) {
  switch (s.draw(6)) {
    case 0: return s.draw(5);
    case 1: return ~0ULL - s.draw(3);
    case 2: return (1ULL << 63) - 1 + s.draw(3);
    case 3: return (1ULL << s.draw(64));
    case 4: return (1ULL << 32) - 1 + s.draw(3);
    default: return s.bits64();
  }
}

void CheckWords(pbt::Src& s, pbt::Ctx& c) {
  uint64_t a = GenWord(s), b = GenWord(s), d = GenWord(s);
  bool cin = s.flip();
  c << "words " << a << "," << b << "," << d << " ";
  BigUIntWord wa(a), wb(b), wd(d);
  Z za = ZFromWords({a}, false), zb = ZFromWords({b}, false), zd = ZFromWords({d}, false);
  Z m = Pow2(64);
  bool carry = false;
  Z sum = za + zb + int(cin);
  uint64_t r = wa.Add(wb, cin, &carry).low_uint64();
  PBT_CHECK(r == Low64(sum) && carry == (sum >= m), "carry add");
  r = wa.Add(wb, &carry).low_uint64();
  PBT_CHECK(r == Low64(za + zb) && carry == (za + zb >= m), "add with carry out");
  r = wa.Add(cin, &carry).low_uint64();
  PBT_CHECK(r == Low64(za + int(cin)) && carry == (za + int(cin) >= m), "add carry in");
  PBT_CHECK(wa.Add(wb).low_uint64() == a + b, "add");
  Z diff = za - zb - int(cin);
  r = wa.Subtract(wb, cin, &carry).low_uint64();
  PBT_CHECK(r == Low64(diff) && carry == (diff < 0), "borrow subtract");
  r = wa.Subtract(wb, &carry).low_uint64();
  PBT_CHECK(r == Low64(za - zb) && carry == (za < zb), "subtract with borrow out");
  r = wa.Subtract(cin, &carry).low_uint64();
  PBT_CHECK(r == Low64(za - int(cin)) && carry == (za < int(cin)), "subtract borrow in");
  BigUIntWord hi(0);
  r = wa.Multiply(wb, &hi).low_uint64();
  PBT_CHECK(ZFromWords({r, hi.low_uint64()}, false) == za * zb, "wide multiply");
  r = wa.MultiplySigned(wb, &hi).low_uint64();
  PBT_CHECK(ZFromWords({r, hi.low_uint64()}, true) == ZFromWords({a}, true) * ZFromWords({b}, true), "signed wide multiply");
  r = wa.MultiplyAdd(wb, wd, cin, &hi).low_uint64();
  // 2^64-1 squared plus a word plus carry still fits two words.
  PBT_CHECK(ZFromWords({r, hi.low_uint64()}, false) == za * zb + zd + int(cin), "multiply add");
  unsigned sh = static_cast<unsigned>(s.draw(64));
  Z both = ZFromWords({a, b}, false);
  Z shifted;
  mpz_fdiv_q_2exp(shifted.get_mpz_t(), both.get_mpz_t(), sh);
  PBT_CHECK(wa.ShiftRight(wb, sh).low_uint64() == Low64(shifted), "double word shift by " << sh);
  PBT_CHECK((wa << sh).low_uint64() == (a << sh) && (wa >> sh).low_uint64() == (a >> sh), "shift");
  unsigned hb = a ? mpz_sizeinbase(za.get_mpz_t(), 2) : 0;
  PBT_CHECK(wa.GetHighestSetBit() == hb, "highest bit of " << a << " is " << wa.GetHighestSetBit());
  PBT_CHECK(wa.GetHighestSetBitUnaccelerated() == hb, "highest bit (portable) of " << a << " is " << wa.GetHighestSetBitUnaccelerated());
  unsigned tz = a ? mpz_scan1(za.get_mpz_t(), 0) : 0;
  PBT_CHECK(wa.GetTrailingZeros() == tz && wa.GetTrailingZerosUnaccelerated() == tz, "trailing zeros of " << a);
  PBT_CHECK(wa.Compare(wb) == SgnI(a < b ? -1 : a > b), "word compare");
  PBT_CHECK((wa < wb) == (a < b) && (wa <= wb) == (a <= b) && (wa > wb) == (a > b) && (wa >= wb) == (a >= b) &&
            (wa == wb) == (a == b) && (wa != wb) == (a != b), "word order");
  PBT_CHECK(static_cast<int64_t>(wa.SignExtension().low_uint64()) == (int64_t(a) < 0 ? -1 : 0), "sign extension");
  if (a != (1ULL << 63)) {
    PBT_CHECK(wa.SignedAbs().low_uint64() == uint64_t(std::llabs(int64_t(a))), "signed abs");
  }
  PBT_CHECK(wa.low_uint32() == uint32_t(a) && wa.high_half_word() == uint32_t(a >> 32), "half words");
}

// Histories of unsigned operations.
void CheckUInt(pbt::Src& s, pbt::Ctx& c) {
  Z m = abs(GenZ(s, 3));
  bool neg;
  BigUInt v = FromZ(m).GetUIntAbs(&neg);
  PBT_CHECK(ToZ(v) == m, "magnitude of " << m);
  for (size_t k = 0; s.more(k, 1, 8); ++k) {
    size_t op = s.draw(5);
    c << "u" << op << " ";
    if (mpz_sizeinbase(m.get_mpz_t(), 2) > 3000) break;
    switch (op) {
      case 0: {
        size_t sh = s.pick(std::vector<size_t>{0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 200, 320, 640, 1088});
        v = v << sh;
        m <<= sh;
        c.label("unsigned shift");
        break;
      }
      case 1: {
        uint64_t w = GenWord(s);
        v = v.Multiply(BigUIntWord(w));
        m *= ZFromWords({w}, false);
        break;
      }
      case 2: {
        uint64_t w = GenWord(s);
        size_t sh = s.pick(std::vector<size_t>{0, 1, 32, 63, 64, 65, 100, 128, 191, 192, 250, 1088});
        v.AddLeftShifted(BigUIntWord(w), sh);
        m += ZFromWords({w}, false) << sh;
        c.label("AddLeftShifted");
        break;
      }
      case 3: {
        // Subtract something that is not larger.
        size_t sh = s.pick(std::vector<size_t>{0, 1, 32, 63, 64, 65, 100, 128});
        Z lim = m >> sh;
        Z x = lim == 0 ? Z(0) : Z(abs(GenZ(s, 4)) % (lim + 1));
        if (s.chance(1, 3)) x = lim;
        BigUInt ux = FromZ(x).GetUIntAbs(&neg);
        if (m == 0 && sh >= 64) break;  // nothing to subtract from
        // The library requires the words that are touched to exist.
        Z top = x << sh;
        if (((mpz_sizeinbase(top.get_mpz_t(), 2) + 63) / 64) > v.used_words()) break;
        if (sh / 64 + ux.used_words() > v.used_words()) break;
        v.SubtractLeftShifted(ux, sh);
        m -= top;
        c.label("SubtractLeftShifted");
        break;
      }
      case 4: {
        Z x = abs(GenZ(s, 4)) % (m + 1);
        if (s.chance(1, 3)) x = m;
        BigUInt ux = FromZ(x).GetUIntAbs(&neg);
        v = v.Subtract(ux);
        m -= x;
        break;
      }
    }
    PBT_CHECK(ToZ(v) == m, "unsigned op " << op << ": expected " << m << " got " << ToZ(v));
    BigInt i(v);
    PBT_CHECK(ToZ(i) == m && i == FromZ(m), "BigInt of unsigned " << m << " is " << ToZ(i));
    BigInt j(-5);
    j = v;
    PBT_CHECK(ToZ(j) == m && j == FromZ(m), "BigInt assigned unsigned " << m);
  }
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  size_t words = s.pick(std::vector<size_t>{2, 1, 3, 4, 8, 14, 36});
  Z z = GenZ(s, words);
  BigInt v = CheckedFromZ(z);
  c << z << " ";
  // Shifts.
  size_t sh = s.flip() ? s.draw(70) : s.draw(400);
  if (s.chance(1, 3)) sh = 64 * s.draw(5) + s.pick(std::vector<size_t>{0, 63, 1, 32});
  if (s.chance(1, 32)) sh = s.draw(6000);
  Z e = z << sh;
  BigInt shifted = v << sh;
  PBT_CHECK(ToZ(shifted) == e, z << " << " << sh << " gives " << ToZ(shifted));
  PBT_CHECK(shifted == FromZ(e), z << " << " << sh << " is not canonical");
  // Limits.
  size_t bits = s.chance(1, 16) ? s.draw(5000) : s.draw(300);
  PBT_CHECK(ToZ(BigInt::max_value(bits)) == Pow2(bits) - 1, "max_value(" << bits << ") is " << ToZ(BigInt::max_value(bits)));
  PBT_CHECK(ToZ(BigInt::min_value(bits)) == -Pow2(bits), "min_value(" << bits << ") is " << ToZ(BigInt::min_value(bits)));
  PBT_CHECK(BigInt::max_value(bits) == FromZ(Pow2(bits) - 1) && BigInt::min_value(bits) == FromZ(-Pow2(bits)), "limits not canonical");
  // Printing.
  std::ostringstream o;
  o << v;
  PBT_CHECK(o.str() == z.get_str(), z << " is printed as " << o.str());
  // Machine integers.
  PBT_CHECK(v.low_uint64() == Low64(z) && v.low_uint32() == uint32_t(Low64(z)), "low bits of " << z);
  if (z.fits_sint_p()) PBT_CHECK(v.ToInt() == z.get_si(), "ToInt of " << z);
  PBT_CHECK(v.IsHalfWord() == (z >= -Pow2(31) && z < Pow2(31)), "IsHalfWord of " << z);
  if (s.chance(1, 64)) {
    // Around the largest finite values.
    size_t e = s.flip() ? DBL_MAX_EXP : LDBL_MAX_EXP;
    Z n = Pow2(e - s.draw(3)) + GenZ(s, 3) * Pow2(s.draw(4) * (e / 4));
    if (s.flip()) n = -n;
    BigInt b = FromZ(n);
    CheckFloat(static_cast<double>(b), n, DBL_MANT_DIG, "double");
    CheckFloat(static_cast<long double>(b), n, LDBL_MANT_DIG, "long double");
    c.label("floating point limits");
  }
  int half = static_cast<int>(s.range(INT32_MIN, INT32_MAX));
  PBT_CHECK(ToZ(BigInt(half)) == half, "from int");
  // Floating point.
  CheckFloat(static_cast<double>(v), z, DBL_MANT_DIG, "double");
  CheckFloat(static_cast<long double>(v), z, LDBL_MANT_DIG, "long double");
  CheckWords(s, c);
  CheckUInt(s, c);
  // Equal values reached by a shift hash alike.
  if (sh && ToZ(shifted) == e) {
    BigInt f = FromZ(e);
    PBT_CHECK(f.GetHash() == shifted.GetHash(), "hash");
  }
  if (MultiWord(z) || MultiWord(e)) c.nontrivial();
  if (MultiWord(z)) c.label("multi-word");
}

}  // namespace

static const pbt::Property kProp = {
    "N03",
    "A case is one integer with a shift, a width, machine words and a history of unsigned operations; non-trivial: "
    "the integer or its shift needs more than one word.",
    Run, 20};
PBT_MAIN(kProp)
