// Exact points, planes and lines over GMP rationals (the oracle side), their
// conversion to and from the library's types, and generators of degenerate
// configurations.
#ifndef VERIF_GEO_H
#define VERIF_GEO_H

#include <array>
#include <algorithm>
#include <vector>

#include "num.h"
#include "walnut/half_space2.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
#include "walnut/vector2.h"
#include "walnut/vector3.h"

namespace gen {

using walnut::HalfSpace2;
using walnut::HalfSpace3;
using walnut::HomoPoint2;
using walnut::HomoPoint3;
using walnut::PluckerLine;
using walnut::Point2;
using walnut::Point3;
using walnut::Vector2;
using walnut::Vector3;

struct P3 {
  Q c[3];
  P3() {}
  P3(Q x, Q y, Q z) : c{x, y, z} {}
  Q& operator[](size_t i) { return c[i]; }
  const Q& operator[](size_t i) const { return c[i]; }
  bool operator==(const P3& o) const {
    return c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2];
  }
  bool operator!=(const P3& o) const { return !(*this == o); }
  bool operator<(const P3& o) const {
    for (int i = 0; i < 3; ++i) {
      if (c[i] != o.c[i]) return c[i] < o.c[i];
    }
    return false;
  }
  P3 operator-(const P3& o) const { return P3(c[0] - o.c[0], c[1] - o.c[1], c[2] - o.c[2]); }
  P3 operator+(const P3& o) const { return P3(c[0] + o.c[0], c[1] + o.c[1], c[2] + o.c[2]); }
  P3 operator*(const Q& s) const { return P3(c[0] * s, c[1] * s, c[2] * s); }
  P3 operator-() const { return P3(-c[0], -c[1], -c[2]); }
  bool IsZero() const { return c[0] == 0 && c[1] == 0 && c[2] == 0; }
};

inline Q Dot(const P3& a, const P3& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline P3 Cross(const P3& a, const P3& b) {
  return P3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]);
}
inline Q Cross2(const P3& a, const P3& b, int drop) {
  int i = (drop + 1) % 3, j = (drop + 2) % 3;
  return a[i] * b[j] - a[j] * b[i];
}
inline std::ostream& operator<<(std::ostream& o, const P3& p) {
  return o << "(" << p[0] << "," << p[1] << "," << p[2] << ")";
}

inline bool SameDir(const P3& a, const P3& b) {
  return Cross(a, b).IsZero() && Dot(a, b) > 0;
}
inline bool Parallel(const P3& a, const P3& b) { return Cross(a, b).IsZero(); }

inline Q Frac(const Z& n, const Z& d) {
  Q q(n, d);
  q.canonicalize();
  return q;
}

inline P3 ToP(const Vector3& v) { return P3(Q(ToZ(v.x())), Q(ToZ(v.y())), Q(ToZ(v.z()))); }
inline P3 ToP(const Point3& v) { return ToP(v.vector_from_origin()); }
inline P3 ToP(const HomoPoint3& p) {
  Z w = ToZ(p.w());
  PBT_CHECK(w != 0, "homogeneous point has a zero denominator");
  return P3(Frac(ToZ(p.x()), w), Frac(ToZ(p.y()), w), Frac(ToZ(p.z()), w));
}
inline P3 ToP(const HomoPoint2& p) {
  Z w = ToZ(p.w());
  PBT_CHECK(w != 0, "homogeneous point has a zero denominator");
  return P3(Frac(ToZ(p.x()), w), Frac(ToZ(p.y()), w), 0);
}

// Plane as the oracle sees it: n.p = d, positive side n.p > d.
struct Pl {
  P3 n;
  Q d;
  Q Eval(const P3& p) const { return Dot(n, p) - d; }
  int Side(const P3& p) const { return sgn(Eval(p)); }
};
inline Pl ToPl(const HalfSpace3& h) {
  Pl r;
  r.n = ToP(h.normal());
  r.d = Q(ToZ(h.d()));
  return r;
}
inline bool SameHalfSpace(const Pl& a, const Pl& b) {
  if (!SameDir(a.n, b.n)) return false;
  for (int i = 0; i < 3; ++i) {
    if (a.n[i] != 0) return a.d * b.n[i] == b.d * a.n[i];
  }
  return false;
}
inline std::ostream& operator<<(std::ostream& o, const Pl& p) {
  return o << p.n << ".p=" << p.d;
}

inline Vector3 ToV(const Z& x, const Z& y, const Z& z) {
  return Vector3(FromZ(x), FromZ(y), FromZ(z));
}
inline Vector3 IntV(const P3& p) {
  for (int i = 0; i < 3; ++i) {
    if (p[i].get_den() != 1) throw pbt::Discard();
  }
  return ToV(p[0].get_num(), p[1].get_num(), p[2].get_num());
}
inline Point3 IntP(const P3& p) { return Point3(IntV(p)); }
inline bool IsInt(const P3& p) {
  return p[0].get_den() == 1 && p[1].get_den() == 1 && p[2].get_den() == 1;
}
inline Z CommonDen(const P3& p) {
  Z l;
  mpz_lcm(l.get_mpz_t(), p[0].get_den().get_mpz_t(), p[1].get_den().get_mpz_t());
  mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), p[2].get_den().get_mpz_t());
  return l;
}
// Homogeneous form of p with the least denominator times `scale`.
inline HomoPoint3 Homo(const P3& p, const Z& scale) {
  Z w = CommonDen(p) * scale;
  Q qw(w);
  P3 s = p * qw;
  return HomoPoint3(FromZ(s[0].get_num()), FromZ(s[1].get_num()),
                    FromZ(s[2].get_num()), FromZ(w));
}
inline HomoPoint2 Homo2(const P3& p, const Z& scale) {
  P3 p2(p[0], p[1], 0);
  Z w = CommonDen(p2) * scale;
  Q qw(w);
  P3 s = p2 * qw;
  return HomoPoint2(FromZ(s[0].get_num()), FromZ(s[1].get_num()), FromZ(w));
}
// Integer plane: the least integer multiple of (n, d) times the positive scale.
inline HalfSpace3 Plane(const P3& n, const Q& d, const Z& scale) {
  Z l = CommonDen(n);
  mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), d.get_den().get_mpz_t());
  l *= scale;
  Q ql(l);
  P3 s = n * ql;
  Q sd = d * ql;
  return HalfSpace3(IntV(s), FromZ(sd.get_num()));
}

// Non-zero scale factor of a homogeneous representation.
inline Z GenScale(pbt::Src& s, bool allow_negative = true) {
  Z r;
  switch (s.draw(6)) {
    case 0: case 1: r = 1; break;
    case 2: r = Z(static_cast<long>(1 + s.draw(7))); break;
    case 3: r = Pow2(s.draw(70)); break;
    case 4: r = abs(GenZ(s, 2)) + 1; break;
    default: r = Z(static_cast<long>(1 + s.draw(1000))); break;
  }
  if (allow_negative && s.flip()) r = -r;
  return r;
}

// Integer coordinate: usually tiny, so that coincidences happen.
inline Z GenCoord(pbt::Src& s) {
  switch (s.draw(10)) {
    case 0: case 1: case 2: case 3: case 4: case 5:
      return Z(static_cast<long>(s.range(-3, 3)));
    case 6: case 7: return Z(static_cast<long>(s.range(-1000, 1000)));
    case 8: return Z(static_cast<long>(s.range(-3, 3))) * Pow2(s.draw(80));
    default: return GenZ(s, 2);
  }
}
inline Q GenRat(pbt::Src& s) {
  Z n = GenCoord(s);
  if (s.draw(2) == 0) return Q(n);
  Z d;
  switch (s.draw(4)) {
    case 0: d = 2; break;
    case 1: d = Z(static_cast<long>(1 + s.draw(9))); break;
    case 2: d = Pow2(s.draw(70)); break;
    default: d = abs(GenZ(s, 1)) + 1; break;
  }
  return Frac(n, d);
}
inline P3 GenIntPoint(pbt::Src& s) {
  Q x(GenCoord(s)), y(GenCoord(s)), z(GenCoord(s));
  return P3(x, y, z);
}
inline P3 GenPoint(pbt::Src& s, bool integer = false) {
  if (integer || s.draw(3) == 0) return GenIntPoint(s);
  Q x = GenRat(s), y = GenRat(s), z = GenRat(s);
  return P3(x, y, z);
}
// Point related to the earlier ones: equal, on their line, in their plane, or
// slightly off.
inline P3 GenRelated(pbt::Src& s, const std::vector<P3>& pts, bool integer) {
  if (pts.empty()) return GenPoint(s, integer);
  auto coef = [&]() {
    return integer ? Q(Z(static_cast<long>(s.range(-3, 3)))) : GenRat(s);
  };
  P3 r;
  switch (s.draw(6)) {
    case 0: return GenPoint(s, integer);
    case 1: r = s.pick(pts); break;
    case 2: {
      const P3& a = s.pick(pts);
      const P3& b = s.pick(pts);
      r = a + (b - a) * coef();
      break;
    }
    case 3: {
      const P3& a = s.pick(pts);
      const P3& b = s.pick(pts);
      const P3& c = s.pick(pts);
      Q f = coef(), g = coef();
      r = a + (b - a) * f + (c - a) * g;
      break;
    }
    case 4: {
      // Shares some coordinates.
      r = GenPoint(s, integer);
      const P3& a = s.pick(pts);
      r[s.draw(3)] = a[s.draw(3)];
      int i = s.draw(3);
      r[i] = a[i];
      break;
    }
    default: {
      const P3& a = s.pick(pts);
      const P3& b = s.pick(pts);
      r = a + (b - a) * coef();
      Q eps = integer ? Q(1) : Frac(1, Pow2(s.draw(130)));
      if (s.flip()) eps = -eps;
      r[s.draw(3)] += eps;
      break;
    }
  }
  return r;
}
inline std::vector<P3> GenConfig(pbt::Src& s, size_t n, bool integer) {
  std::vector<P3> r;
  for (size_t i = 0; i < n; ++i) r.push_back(GenRelated(s, r, integer));
  return r;
}

}  // namespace gen
#endif
