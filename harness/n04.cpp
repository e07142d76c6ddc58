// N04: doubles are taken over exactly or to the stated grid, and exported to
// within rounding.
#include <cmath>
#include <cstring>
#include <limits>

#include "geo.h"
#include "walnut/double.h"

using namespace gen;

namespace {

double GenDouble(pbt::Src& s) {
  double d = 0;
  switch (s.draw(8)) {
    case 0: d = static_cast<double>(s.range(-5, 5)); break;
    case 1: d = static_cast<double>(s.range(-1000000, 1000000)) / 64; break;
    case 2: d = std::ldexp(1.0, static_cast<int>(s.range(-1074, 1023))); break;
    case 3: {
      // Denormal.
      d = std::ldexp(static_cast<double>(s.draw(1ULL << 52)), -1074);
      break;
    }
    case 4: {
      static const double k[] = {0.0, -0.0, std::numeric_limits<double>::min(),
                                 std::numeric_limits<double>::denorm_min(),
                                 std::numeric_limits<double>::max(), 0.1, 1.0 / 3, 0.5, 1.5, 2.5};
      d = k[s.draw(10)];
      break;
    }
    case 5: {
      // Ordinary magnitude with a full mantissa.
      d = std::ldexp(static_cast<double>(s.draw(1ULL << 53)), static_cast<int>(s.range(-70, 10)));
      break;
    }
    case 6: {
      // Half way between grid points of a small power of two.
      d = (static_cast<double>(s.range(-100, 100)) + 0.5) * std::ldexp(1.0, static_cast<int>(s.range(-20, 20)));
      break;
    }
    default: {
      uint64_t b = s.bits64();
      std::memcpy(&d, &b, 8);
      if (!std::isfinite(d)) d = 1;
      break;
    }
  }
  if (s.flip()) d = -d;
  return d;
}

Q Ex(double d) { return Q(d); }

Q QPow2(long e) { return e >= 0 ? Q(Pow2(e)) : Frac(1, Pow2(-e)); }

// Gap between doubles around |q|.
Q Ulp(const Q& q) {
  if (q == 0) return QPow2(-1074);
  Q a = abs(q);
  long e = static_cast<long>(mpz_sizeinbase(a.get_num().get_mpz_t(), 2)) -
           static_cast<long>(mpz_sizeinbase(a.get_den().get_mpz_t(), 2));
  // 2^(e-1) < a < 2^(e+1)
  if (QPow2(e) > a) --e;
  return QPow2(std::max(e - 52, -1074L));
}

void CheckExport(const HomoPoint3& p, const P3& exact, const char* what) {
  walnut::DoublePoint3 d = p.GetDoublePoint3();
  double got[3] = {d.x, d.y, d.z};
  for (int i = 0; i < 3; ++i) {
    if (abs(exact[i]) >= QPow2(1023)) continue;
    PBT_CHECK(std::isfinite(got[i]), what << ": coordinate " << i << " of " << exact << " becomes " << got[i]);
    Q err = abs(Ex(got[i]) - exact[i]);
    PBT_CHECK(err <= Ulp(exact[i]), what << ": coordinate " << i << " of " << exact << " becomes " << got[i]);
  }
}

// A small quotient of two integers far beyond the range of a double.
void CheckLargeTerms(pbt::Src& s, pbt::Ctx& c) {
  Z w = Pow2(s.size(600, 7000)) + GenZ(s, 3);
  if (s.flip()) w = -w;
  Z n[3];
  P3 exact;
  for (int i = 0; i < 3; ++i) {
    Z lo = GenZ(s, 2), hi = GenZ(s, 2);
    n[i] = hi * w + lo;
    if (s.flip()) n[i] = n[i] / (hi == 0 ? Z(1) : hi * hi);
    exact[i] = Frac(n[i], w);
  }
  HomoPoint3 p(FromZ(n[0]), FromZ(n[1]), FromZ(n[2]), FromZ(w));
  c.label("numerators beyond a double");
  CheckExport(p, exact, "quotient of large integers");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  if (s.chance(1, 64)) CheckLargeTerms(s, c);
  double v[3];
  int special = 0;
  for (int i = 0; i < 3; ++i) {
    v[i] = i && s.draw(5) == 0 ? v[i - 1] : GenDouble(s);
    if (v[i] != 0 && std::fabs(v[i]) < std::numeric_limits<double>::min()) special |= 1;
    if (v[i] != std::floor(v[i])) special |= 2;
  }
  if (special & 1) c.label("denormal");
  if (special & 2) { c.label("fraction"); c.nontrivial(); }
  c.append("doubles " + std::to_string(v[0]) + " ");
  c << v[0] << " " << v[1] << " " << v[2] << "\n";
  for (int i = 0; i < 3; ++i) {
    int e = 12345;
    int64_t m = walnut::Decompose(v[i], &e);
    if (v[i] == 0) {
      PBT_CHECK(m == 0 && e == 0, "Decompose(0) gives " << m << " * 2^" << e);
      continue;
    }
    PBT_CHECK(m & 1, "Decompose(" << v[i] << ") mantissa " << m << " is even");
    PBT_CHECK(Q(Z(static_cast<long>(m))) * QPow2(e) == Ex(v[i]), "Decompose(" << v[i] << ") gives " << m << " * 2^" << e);
  }
  P3 exact(Ex(v[0]), Ex(v[1]), Ex(v[2]));
  HomoPoint3 p = s.flip() ? HomoPoint3::FromDoublesExact(v[0], v[1], v[2])
                          : HomoPoint3::FromDoublePoint3Exact(walnut::DoublePoint3(v[0], v[1], v[2]));
  PBT_CHECK(ToP(p) == exact, "FromDoublesExact gives " << ToP(p) << ", exact " << exact);
  walnut::DoublePoint3 back = p.GetDoublePoint3();
  PBT_CHECK(back.x == v[0] && back.y == v[1] && back.z == v[2],
            "export of an imported point gives " << back.x << " " << back.y << " " << back.z << ", imported " << v[0] << " " << v[1] << " " << v[2]);
  HomoPoint3 reduced(p);
  reduced.Reduce();
  PBT_CHECK(ToP(reduced) == exact, "Reduce changed an imported point");
  back = reduced.GetDoublePoint3();
  PBT_CHECK(back.x == v[0] && back.y == v[1] && back.z == v[2], "export of an imported and reduced point differs from the imported doubles");

  // Rounded to a grid.
  int min_exp;
  switch (s.draw(5)) {
    case 0: min_exp = static_cast<int>(s.range(-5, 5)); break;
    case 1: min_exp = static_cast<int>(s.range(-1100, 1100)); break;
    case 2: {
      int e;
      std::frexp(v[s.draw(3)], &e);
      min_exp = e - static_cast<int>(s.range(-3, 60));
      break;
    }
    case 3: min_exp = s.flip() ? -100000 : -1075; break;
    default: min_exp = static_cast<int>(s.range(-60, 0)); break;
  }
  c << "grid 2^" << min_exp << "\n";
  HomoPoint3 r = HomoPoint3::FromDoubles(min_exp, v[0], v[1], v[2]);
  P3 got = ToP(r);
  long ge = std::max(min_exp, -2000);
  Q grain = QPow2(ge);
  bool moved = false;
  for (int i = 0; i < 3; ++i) {
    Q mult = got[i] / grain;
    PBT_CHECK(mult.get_den() == 1, "FromDoubles(2^" << min_exp << "): coordinate " << i << " = " << got[i] << " of " << v[i] << " is not on the grid");
    Q err = abs(got[i] - exact[i]);
    PBT_CHECK(err * 2 <= grain, "FromDoubles(2^" << min_exp << "): coordinate " << i << " = " << got[i] << " is not the nearest grid value to " << v[i]);
    if (got[i] != exact[i]) moved = true;
    Q em = exact[i] / grain;
    if (em.get_den() == 1) PBT_CHECK(got[i] == exact[i], "FromDoubles(2^" << min_exp << ") moved " << v[i] << " which is on the grid");
  }
  if (moved) { c.label("rounded to grid"); c.nontrivial(); }
  if (min_exp > 0) c.label("grid coarser than 1");
  CheckExport(r, got, "export of a rounded point");

  // Any exact point.
  P3 q = GenPoint(s);
  if (s.flip()) {
    q = P3(Frac(GenZ(s, 6), abs(GenZ(s, 6)) + 1), Frac(GenZ(s, 6), abs(GenZ(s, 3)) + 1), Frac(GenZ(s, 3), abs(GenZ(s, 6)) + 1));
  }
  if (CommonDen(q) != 1) c.nontrivial();
  HomoPoint3 hq = Homo(q, GenScale(s));
  c << "export " << q << "\n";
  CheckExport(hq, q, "export");
}

}  // namespace

PBT_MAIN((pbt::Property{"N04", "a double with a fractional part, a point that rounding to the grid moves, or an export with a denominator", Run, 5.0}))
