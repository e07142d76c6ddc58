// N02: division, gcd, comparisons and rational helpers, against GMP.
#include "num.h"
#include "walnut/rational.h"

using namespace gen;

namespace {

void CheckDivision(const Z& zn, const Z& zd) {
  BigInt n = CheckedFromZ(zn), d = CheckedFromZ(zd);
  Z q, r;
  mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), zn.get_mpz_t(), zd.get_mpz_t());
  BigInt rem;
  BigInt quo = n.DivideRemainder(d, &rem);
  PBT_CHECK(ToZ(quo) == q && ToZ(rem) == r,
            zn << " divided by " << zd << ": expected " << q << " rem " << r
               << ", got " << ToZ(quo) << " rem " << ToZ(rem));
  PBT_CHECK(quo == FromZ(q) && rem == FromZ(r), "quotient or remainder not canonical: " << zn << " / " << zd);
  PBT_CHECK(ToZ(n / d) == q, zn << " / " << zd << " gives " << ToZ(n / d));
  PBT_CHECK(ToZ(n % d) == r, zn << " % " << zd << " gives " << ToZ(n % d));
  PBT_CHECK(n % d == FromZ(r) && n / d == FromZ(q), "not canonical");
  BigInt a(n);
  a /= d;
  PBT_CHECK(ToZ(a) == q, "/= gives " << ToZ(a));
  if (zd.fits_sint_p()) {
    PBT_CHECK(ToZ(n / static_cast<int>(zd.get_si())) == q, zn << " / int " << zd);
  }
  // Output objects that alias operands.
  BigInt b(n);
  b = b / d;
  PBT_CHECK(ToZ(b) == q, "a = a / d gives " << ToZ(b));
  BigInt e(d);
  BigInt q2 = n.DivideRemainder(e, &rem);
  PBT_CHECK(ToZ(n) == zn && ToZ(e) == zd, "operands changed");
  e /= e;
  PBT_CHECK(ToZ(e) == 1, "d /= d");
  // Unsigned division.
  if (zn >= 0 && zd > 0) {
    bool neg;
    BigUInt un = n.GetUIntAbs(&neg), ud = d.GetUIntAbs(&neg), ur;
    BigUInt uq = un.DivideRemainder(ud, &ur);
    PBT_CHECK(ToZ(uq) == q && ToZ(ur) == r, "unsigned " << zn << " / " << zd
              << " gives " << ToZ(uq) << " rem " << ToZ(ur));
  }
}

void CheckGcd(const Z& za, const Z& zb) {
  BigInt a = CheckedFromZ(za), b = CheckedFromZ(zb);
  Z g = abs(ToZ(a.GetGreatestCommonDivisor(b)));
  Z e;
  mpz_gcd(e.get_mpz_t(), za.get_mpz_t(), zb.get_mpz_t());
  PBT_CHECK(g == e, "gcd(" << za << ", " << zb << ") gives " << g << ", expected " << e);
}

void CheckCompare(const Z& za, const Z& zb) {
  BigInt a = CheckedFromZ(za), b = CheckedFromZ(zb);
  int c = cmp(za, zb);
  c = SgnI(c);
  PBT_CHECK(SgnI(a.Compare(b)) == c, "Compare(" << za << ", " << zb << ")");
  PBT_CHECK((a < b) == (c < 0), za << " < " << zb);
  PBT_CHECK((a <= b) == (c <= 0), za << " <= " << zb);
  PBT_CHECK((a > b) == (c > 0), za << " > " << zb);
  PBT_CHECK((a >= b) == (c >= 0), za << " >= " << zb);
  PBT_CHECK((a == b) == (c == 0), za << " == " << zb);
  PBT_CHECK((a != b) == (c != 0), za << " != " << zb);
  PBT_CHECK(a.LessThan(false, b) == (c < 0), za << " LessThan " << zb);
  PBT_CHECK(a.LessThan(true, b) == (c > 0), za << " LessThan(flip) " << zb);
  PBT_CHECK(BigInt::FlippableCompare(false)(a, b) == (c < 0), "FlippableCompare");
  PBT_CHECK(BigInt::FlippableCompare(true)(a, b) == (c > 0), "FlippableCompare flip");
  if (zb.fits_sint_p()) {
    int i = static_cast<int>(zb.get_si());
    PBT_CHECK((a < i) == (c < 0), za << " < int " << zb);
    PBT_CHECK((a <= i) == (c <= 0), za << " <= int " << zb);
    PBT_CHECK((a > i) == (c > 0), za << " > int " << zb);
    PBT_CHECK((a >= i) == (c >= 0), za << " >= int " << zb);
    PBT_CHECK((a == i) == (c == 0), za << " == int " << zb);
    PBT_CHECK((a != i) == (c != 0), za << " != int " << zb);
  }
  if (za >= 0 && zb >= 0) {
    bool neg;
    PBT_CHECK((a.GetUIntAbs(&neg) >= b.GetUIntAbs(&neg)) == (c >= 0), "unsigned >=");
  }
}

void CheckRational(const Z& n1, const Z& d1, const Z& n2, const Z& d2) {
  using namespace walnut;
  BigInt a = CheckedFromZ(n1), b = CheckedFromZ(d1), c = CheckedFromZ(n2), d = CheckedFromZ(d2);
  Q q1(n1, d1), q2(n2, d2);
  q1.canonicalize();
  q2.canonicalize();
  PBT_CHECK(rational::IsLessThan(a, b, c, d) == (q1 < q2), q1 << " < " << q2 << " as " << n1 << "/" << d1 << " " << n2 << "/" << d2);
  PBT_CHECK(rational::Equals(a, b, c, d) == (q1 == q2), n1 << "/" << d1 << " == " << n2 << "/" << d2);
  // Rounding q1 to a multiple of 1/d2. With a negative denominator the value
  // new_num/d2 still has to be the nearest on the stated side.
  for (int up = 0; up < 2; ++up) {
    BigInt r = up ? rational::RoundUp(a, b, d) : rational::RoundDown(a, b, d);
    Q got(ToZ(r), d2);
    got.canonicalize();
    Q step(Z(1), abs(d2));
    step.canonicalize();
    if (up) {
      PBT_CHECK(got >= q1 && got - step < q1, "RoundUp(" << n1 << "/" << d1 << ", denominator " << d2 << ") = " << got);
    } else {
      PBT_CHECK(got <= q1 && got + step > q1, "RoundDown(" << n1 << "/" << d1 << ", denominator " << d2 << ") = " << got);
    }
  }
}

// Angle order of lines through the origin, angles in [0, half turn).
void CheckHalfRotation(const Z& x1, const Z& y1, const Z& x2, const Z& y2) {
  if ((x1 == 0 && y1 == 0) || (x2 == 0 && y2 == 0)) return;
  bool got = walnut::rational::IsHalfRotationLessThan(
      FromZ(x1), FromZ(y1), FromZ(x2), FromZ(y2), FromZ(y1 * x2), FromZ(y2 * x1));
  Z a = x1, b = y1, c = x2, d = y2;
  if (b < 0 || (b == 0 && a < 0)) { a = -a; b = -b; }
  if (d < 0 || (d == 0 && c < 0)) { c = -c; d = -d; }
  // Both in the upper half plane (or on the positive x axis).
  bool expected = a * d - b * c > 0;
  PBT_CHECK(got == expected, "half rotation of (" << x1 << "," << y1 << ") vs (" << x2 << "," << y2 << ")");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  size_t words = s.pick(std::vector<size_t>{2, 1, 3, 4, 6, 10, 24});
  Z a, b;
  switch (s.draw(4)) {
    case 0: {
      // Near-exact multiples: quotient digits and remainders at their limits.
      Z q = GenZ(s, words), d = GenZ(s, words);
      if (d == 0) d = 1;
      Z r;
      switch (s.draw(5)) {
        case 0: r = 0; break;
        case 1: r = abs(d) - 1; break;
        case 2: r = 1; break;
        case 3: r = abs(d) / 2; break;
        case 4: r = abs(GenZ(s, words)) % abs(d); break;
      }
      a = q * d + (s.flip() ? Z(r) : Z(-r));
      b = d;
      c.label("constructed quotient");
      break;
    }
    case 1: {
      a = GenZ(s, words);
      b = a + static_cast<long>(s.range(-2, 2));
      if (s.flip()) b = -b;
      break;
    }
    case 2: {
      Z g = GenZ(s, 2);
      a = GenZ(s, words) * g;
      b = GenZ(s, words) * g;
      c.label("common factor");
      break;
    }
    default:
      a = GenZ(s, words);
      b = GenZ(s, words);
      break;
  }
  Z n2 = GenZ(s, words), d2 = GenZ(s, words);
  if (s.flip()) { n2 = a * (d2 == 0 ? Z(1) : d2); d2 = b * (d2 == 0 ? Z(1) : d2); if (s.flip()) n2 += static_cast<long>(s.range(-1, 1)); }
  c << a << " , " << b << " , " << n2 << " / " << d2;
  if (b != 0) CheckDivision(a, b);
  CheckGcd(a, b);
  CheckCompare(a, b);
  CheckCompare(b, a);
  CheckCompare(a, -b);
  CheckCompare(a, Z(static_cast<long>(s.range(-3, 3))));
  if (b != 0 && d2 != 0) CheckRational(a, b, n2, d2);
  CheckHalfRotation(a, b, n2, d2);
  CheckHalfRotation(a, b, a * 3, b * -3);
  if (MultiWord(a) && b != 0) { c.nontrivial(); c.label("multi-word dividend"); }
  if (MultiWord(b)) c.label("multi-word divisor");
}

}  // namespace

static const pbt::Property kProp = {
    "N02",
    "A case is two integers (random bit patterns, constructed quotient/remainder, near-equal pairs, common factors; "
    "up to 48 words) plus a second rational; non-trivial: nonzero divisor and a dividend longer than one word.",
    Run, 20};
PBT_MAIN(kProp)
