// Vertices that lie between doubles, and what their doubles may be.
#ifndef VERIF_DOUBLES_H
#define VERIF_DOUBLES_H

#include <cmath>

#include "solid.h"
#include "walnut/double_point3.h"

namespace gen {

using walnut::DoublePoint3;

using DKey = std::array<double, 3>;
inline DKey Key(const DoublePoint3& p) { return DKey{p.x + 0.0, p.y + 0.0, p.z + 0.0}; }
inline std::ostream& operator<<(std::ostream& o, const DKey& k) {
  o.precision(17);
  return o << "(" << k[0] << "," << k[1] << "," << k[2] << ")";
}

// The double is one of the two neighbours of the exact value, or as near.
inline bool Near(double d, const Q& v) {
  if (!std::isfinite(d)) return false;
  Q e = abs(Q(d) - v);
  double up = std::nextafter(std::fabs(d), INFINITY) - std::fabs(d);
  return e <= Q(up);
}

struct UnionFind {
  std::map<DKey, DKey> up;
  DKey Find(const DKey& k) {
    auto it = up.find(k);
    if (it == up.end()) { up[k] = k; return k; }
    if (it->second == k) return k;
    DKey r = Find(it->second);
    up[k] = r;
    return r;
  }
  void Join(const DKey& a, const DKey& b) { up[Find(a)] = Find(b); }
};

// 54 significant bits and a little: just between two doubles.
inline Q Between(pbt::Src& s) {
  Z m = (Z(1) << 53) + Z(static_cast<unsigned long>(s.draw(1UL << 40))) * 8192 + 1;
  unsigned k = 8 + s.draw(40);
  m = (m << k) + s.range(-2, 2);
  Q r(m);
  return r / Q(Pow2(20 + s.draw(60)));
}
inline Z BigScale(pbt::Src& s) {
  switch (s.draw(5)) {
    case 0: return Z(1);
    case 1: return GenScale(s, true);
    default: {
      Z r = 1;
      for (size_t k = 1 + s.draw(3); k > 0; --k) r = (r << 32) + Z(static_cast<unsigned long>(s.draw(1UL << 32)));
      return s.flip() ? r : Z(-r);
    }
  }
}

// Facets with vertices that have several double forms, some of them around
// a common vertex and not all the way.
inline Mesh GenAmbiguous(pbt::Src& s) {
  Mesh m;
  bool fan = s.chance(1, 2);
  if (fan) {
    // Facets around one or more vertices, some of them not linked all around.
    for (size_t f = 0; s.more(f, 1, 3); ++f) {
      size_t n = 3 + s.draw(8);
      P3 top = IP(1, 1, s.flip() ? 2 : 1);
      std::vector<P3> ring;
      static const int rx[12] = {4, 4, 2, 1, -1, -3, -3, -3, -1, 1, 3, 4}, ry[12] = {1, 2, 4, 4, 4, 3, 1, -1, -3, -3, -2, 0};
      std::set<size_t> at;
      while (at.size() < n) at.insert(s.draw(12));
      for (size_t i : at) ring.push_back(top + IP(rx[i], ry[i], -1 - (long)(f)));
      for (size_t i = 0; i < ring.size(); ++i) {
        if (s.chance(1, 12)) continue;
        Loop l{top, ring[i], ring[(i + 1) % ring.size()]};
        if (Dot(AreaVec(l), IP(0, 0, 1)) <= 0) continue;
        m.push_back(l);
      }
    }
  } else {
    m = GenOperand(s, {});
    if (s.flip()) m = Subdivide(s, m, 6);
  }
  if (m.empty()) throw pbt::Discard();
  P3 f(Between(s), Between(s), Between(s));
  for (Loop& l : m) for (P3& p : l) for (int d = 0; d < 3; ++d) p[d] *= f[d];
  if (s.flip()) {
    // Very near the same place.
    Loop l = s.pick(m);
    Q e = f[0] / Q(Pow2(55 + s.draw(12)));
    for (P3& p : l) p[0] += e;
    m.push_back(l);
  }
  return m;
}

}  // namespace gen
#endif
