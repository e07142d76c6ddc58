// Closed meshes of planar convex facets over exact rationals: generators,
// exact winding numbers and volumes, and conversion to and from the library.
#ifndef VERIF_SOLID_H
#define VERIF_SOLID_H

#include <map>
#include <set>

#include "geo.h"
#include "walnut/mutable_convex_polygon.h"

namespace gen {

using Loop = std::vector<P3>;      // planar, convex, counter-clockwise from outside
using Mesh = std::vector<Loop>;

// ---------------------------------------------------------------------------
// Measures

// Twice the area vector.
inline P3 AreaVec(const Loop& l) {
  P3 r(0, 0, 0);
  for (size_t i = 1; i + 1 < l.size(); ++i) {
    r = r + Cross(l[i] - l[0], l[i + 1] - l[0]);
  }
  return r;
}
inline Q Det(const P3& a, const P3& b, const P3& c) { return Dot(a, Cross(b, c)); }
// Six times the signed volume.
inline Q Volume6(const Mesh& m) {
  Q r = 0;
  for (const Loop& l : m) {
    if (l.empty()) continue;
    r += Dot(l[0], AreaVec(l));
  }
  // The sum above is 6 V only with each facet's cone: l0 . areavec2.
  return r;
}
inline Mesh Flip(const Mesh& m) {
  Mesh r = m;
  for (Loop& l : r) std::reverse(l.begin(), l.end());
  return r;
}
inline void Append(Mesh& to, const Mesh& from) {
  to.insert(to.end(), from.begin(), from.end());
}
inline std::ostream& operator<<(std::ostream& o, const Loop& l) {
  o << "[";
  for (size_t i = 0; i < l.size(); ++i) o << (i ? " " : "") << l[i];
  return o << "]";
}
inline std::string Show(const Mesh& m, size_t max_facets = 40) {
  std::ostringstream o;
  for (size_t i = 0; i < m.size() && i < max_facets; ++i) o << "  " << m[i] << "\n";
  if (m.size() > max_facets) o << "  ... " << m.size() << " facets\n";
  return o.str();
}

// ---------------------------------------------------------------------------
// Winding number by counting signed crossings of a ray in direction +x.

struct WindFacet {
  Loop v;
  P3 n;       // area vector
  Q d;        // n . v0
  Q lo[2], hi[2];
};

class Winder {
 public:
  explicit Winder(const Mesh& m) {
    for (const Loop& l : m) {
      if (l.size() < 3) continue;
      WindFacet f;
      f.n = AreaVec(l);
      if (f.n[0] == 0) continue;  // parallel to the ray, or degenerate
      f.v = l;
      f.d = Dot(f.n, l[0]);
      for (int k = 0; k < 2; ++k) {
        f.lo[k] = f.hi[k] = l[0][k + 1];
        for (const P3& p : l) {
          if (p[k + 1] < f.lo[k]) f.lo[k] = p[k + 1];
          if (p[k + 1] > f.hi[k]) f.hi[k] = p[k + 1];
        }
      }
      facets_.push_back(f);
    }
  }
  // False if the ray or the point is degenerate with respect to some facet.
  bool Wind(const P3& q, int* w) const {
    int r = 0;
    for (const WindFacet& f : facets_) {
      if (q[1] < f.lo[0] || q[1] > f.hi[0] || q[2] < f.lo[1] || q[2] > f.hi[1]) continue;
      int s = sgn(f.n[0]);
      bool inside = true;
      for (size_t i = 0; i < f.v.size(); ++i) {
        const P3& a = f.v[i];
        const P3& b = f.v[(i + 1) % f.v.size()];
        Q c = (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1]);
        int t = sgn(c) * s;
        if (t == 0) {
          // On the extension of an edge: harmless only if outside elsewhere.
          if (a[1] == b[1] && a[2] == b[2]) continue;
          bool out = false;
          for (size_t j = 0; j < f.v.size() && !out; ++j) {
            const P3& a2 = f.v[j];
            const P3& b2 = f.v[(j + 1) % f.v.size()];
            Q c2 = (b2[1] - a2[1]) * (q[2] - a2[2]) - (b2[2] - a2[2]) * (q[1] - a2[1]);
            if (sgn(c2) * s < 0) out = true;
          }
          if (!out) return false;
          inside = false;
          break;
        }
        if (t < 0) { inside = false; break; }
      }
      if (!inside) continue;
      Q e = f.d - Dot(f.n, q);
      // The plane is crossed at q + t x with t = e / n.x.
      int side = sgn(e) * s;
      if (side == 0) return false;
      if (side > 0) r += s;
    }
    *w = r;
    return true;
  }

 private:
  std::vector<WindFacet> facets_;
};

// ---------------------------------------------------------------------------
// Shapes on a small integer grid

inline P3 IP(long x, long y, long z) { return P3(Q(x), Q(y), Q(z)); }

inline Mesh Box(const P3& lo, const P3& hi) {
  auto c = [&](int i) {
    return P3((i & 1) ? hi[0] : lo[0], (i & 2) ? hi[1] : lo[1], (i & 4) ? hi[2] : lo[2]);
  };
  return Mesh{
      {c(0), c(4), c(6), c(2)}, {c(1), c(3), c(7), c(5)},
      {c(0), c(1), c(5), c(4)}, {c(2), c(6), c(7), c(3)},
      {c(0), c(2), c(3), c(1)}, {c(4), c(5), c(7), c(6)}};
}

// Convex hull of a few points by trying all triples; empty if flat.
inline Mesh Hull(std::vector<P3> pts) {
  std::sort(pts.begin(), pts.end());
  pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
  Mesh r;
  std::set<std::vector<size_t>> done;
  for (size_t i = 0; i < pts.size(); ++i)
    for (size_t j = i + 1; j < pts.size(); ++j)
      for (size_t k = j + 1; k < pts.size(); ++k) {
        P3 n = Cross(pts[j] - pts[i], pts[k] - pts[i]);
        if (n.IsZero()) continue;
        bool pos = false, neg = false;
        std::vector<size_t> on;
        for (size_t l = 0; l < pts.size(); ++l) {
          int sg = sgn(Dot(n, pts[l] - pts[i]));
          if (sg > 0) pos = true;
          else if (sg < 0) neg = true;
          else on.push_back(l);
        }
        if (pos == neg) continue;
        if (!done.insert(on).second) continue;
        if (pos) n = -n;  // outward
        // Gift wrapping inside the plane.
        size_t start = on[0];
        for (size_t l : on) if (pts[l] < pts[start]) start = l;
        Loop loop;
        size_t cur = start;
        do {
          loop.push_back(pts[cur]);
          size_t next = cur;
          for (size_t l : on) {
            if (l == cur) continue;
            if (next == cur) { next = l; continue; }
            Q t = Dot(n, Cross(pts[next] - pts[cur], pts[l] - pts[cur]));
            if (t < 0) next = l;
            else if (t == 0) {
              P3 dl = pts[l] - pts[cur], dn = pts[next] - pts[cur];
              if (Dot(dl, dl) > Dot(dn, dn)) next = l;
            }
          }
          cur = next;
        } while (cur != start && loop.size() <= on.size());
        r.push_back(loop);
      }
  // Two facets mean that all the points are in one plane.
  if (r.size() < 4) r.clear();
  return r;
}

inline long Coord(pbt::Src& s) { return s.range(-2, 3); }
inline P3 GridPoint(pbt::Src& s) {
  long x = Coord(s), y = Coord(s), z = Coord(s);
  return IP(x, y, z);
}

inline Mesh GenBox(pbt::Src& s) {
  P3 lo = GridPoint(s);
  long a = 1 + s.draw(3), b = 1 + s.draw(3), c = 1 + s.draw(3);
  return Box(lo, lo + IP(a, b, c));
}

// Boundary of a union of unit cells (may touch itself at edges and vertices).
inline Mesh PolyCube(const std::set<std::array<long, 3>>& cells, const P3& at, long unit) {
  Mesh r;
  for (const auto& c : cells) {
    P3 lo = at + IP(c[0], c[1], c[2]) * Q(unit);
    Mesh b = Box(lo, lo + IP(unit, unit, unit));
    // Box facets are in the order -x +x -y +y -z +z.
    for (int f = 0; f < 6; ++f) {
      std::array<long, 3> o = c;
      o[f / 2] += (f & 1) ? 1 : -1;
      if (!cells.count(o)) r.push_back(b[f]);
    }
  }
  return r;
}
inline Mesh GenPolyCube(pbt::Src& s, size_t max_cells = 6) {
  std::set<std::array<long, 3>> cells;
  cells.insert({0, 0, 0});
  for (size_t k = 1; s.more(k, 1, max_cells); ++k) {
    if (s.chance(1, 4)) {
      long x = s.draw(3), y = s.draw(3), z = s.draw(3);
      cells.insert({x, y, z});
    } else {
      auto it = cells.begin();
      std::advance(it, s.draw(cells.size()));
      std::array<long, 3> c = *it;
      int d = s.draw(3);
      c[d] += s.flip() ? 1 : -1;
      cells.insert(c);
    }
  }
  return PolyCube(cells, GridPoint(s), 1 + (s.draw(4) == 3));
}

// Prism over a non-convex outline: side facets and caps cut into triangles.
inline Mesh GenPrism(pbt::Src& s) {
  // Star-shaped outline around the origin of a plane: points on rays.
  static const long dir[8][2] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
  std::vector<std::array<long, 2>> out;
  for (int i = 0; i < 8; ++i) {
    // The cardinal directions are kept so that the centre stays inside.
    if ((i & 1) && s.flip()) continue;
    long k = 1 + s.draw(2);
    out.push_back({dir[i][0] * k, dir[i][1] * k});
  }
  P3 at = GridPoint(s);
  int axis = s.draw(3);
  long h = 1 + s.draw(3);
  long sx = s.range(-1, 1), sy = s.range(-1, 1);
  auto mk = [&](std::array<long, 2> p, long z) {
    P3 r;
    r[(axis + 1) % 3] = Q(p[0] + (z ? sx : 0));
    r[(axis + 2) % 3] = Q(p[1] + (z ? sy : 0));
    r[axis] = Q(z);
    return r + at;
  };
  Mesh r;
  size_t n = out.size();
  std::array<long, 2> o{0, 0};
  for (size_t i = 0; i < n; ++i) {
    auto a = out[i], b = out[(i + 1) % n];
    r.push_back({mk(a, 0), mk(b, 0), mk(b, h), mk(a, h)});
    r.push_back({mk(o, h), mk(a, h), mk(b, h)});
    r.push_back({mk(o, 0), mk(b, 0), mk(a, 0)});
  }
  return r;
}

// Convex solid with two caps of 8 to 20 sides: a zonogon's edges are a few
// lattice directions and their opposites in angular order.
inline Mesh GenRound(pbt::Src& s) {
  static const long dir[10][2] = {{1, 0}, {3, 1}, {2, 1}, {1, 1}, {1, 2}, {0, 1}, {-1, 2}, {-1, 1}, {-2, 1}, {-3, 1}};
  std::vector<std::array<long, 2>> e;
  bool all = s.chance(1, 4);
  for (int i = 0; i < 10; ++i) if (all || !s.chance(1, 4)) e.push_back({dir[i][0], dir[i][1]});
  for (int i = 0; e.size() < 4; ++i) e.insert(e.begin() + i, {dir[i][0], dir[i][1]});
  std::sort(e.begin(), e.end(), [](const std::array<long, 2>& a, const std::array<long, 2>& b) {
    return a[0] * b[1] - a[1] * b[0] > 0;
  });
  e.erase(std::unique(e.begin(), e.end()), e.end());
  size_t half = e.size();
  for (size_t i = 0; i < half; ++i) e.push_back({-e[i][0], -e[i][1]});
  std::vector<std::array<long, 2>> out;
  long x = 0, y = 0;
  for (auto& d : e) { out.push_back({x, y}); x += d[0]; y += d[1]; }
  P3 at = GridPoint(s);
  int axis = s.draw(3);
  long h = 1 + s.draw(3);
  long sx = s.range(-1, 1), sy = s.range(-1, 1);
  // About as large as the other shapes.
  Q k = s.flip() ? Q(1, 4) : Q(1);
  bool cone = s.chance(1, 4);
  auto mk = [&](std::array<long, 2> p, long z) {
    P3 r;
    r[(axis + 1) % 3] = (Q(p[0]) + (z ? sx : 0)) * k;
    r[(axis + 2) % 3] = (Q(p[1]) + (z ? sy : 0)) * k;
    r[axis] = Q(z);
    return r + at;
  };
  Mesh r;
  Loop top, bottom;
  size_t n = out.size();
  for (size_t i = 0; i < n; ++i) {
    auto a = out[i], b = out[(i + 1) % n];
    bottom.insert(bottom.begin(), mk(a, 0));
    top.push_back(mk(a, h));
    if (cone) r.push_back({mk(a, 0), mk(b, 0), mk(out[0], h)});
    else r.push_back({mk(a, 0), mk(b, 0), mk(b, h), mk(a, h)});
  }
  r.push_back(bottom);
  if (!cone) r.push_back(top);
  return r;
}

inline Mesh GenShape(pbt::Src& s) {
  if (s.draw(24) == 23) return GenRound(s);
  switch (s.draw(8)) {
    case 0: case 1: return GenBox(s);
    case 2: {
      std::vector<P3> p;
      for (int i = 0; i < 4; ++i) p.push_back(GridPoint(s));
      return Hull(p);
    }
    case 3: case 4: {
      std::vector<P3> p;
      for (size_t k = 0; s.more(k, 4, 8); ++k) p.push_back(GridPoint(s));
      return Hull(p);
    }
    case 5: case 6: return GenPolyCube(s);
    default: return GenPrism(s);
  }
}

inline Mesh Translate(const Mesh& m, const P3& t) {
  Mesh r = m;
  for (Loop& l : r) for (P3& p : l) p = p + t;
  return r;
}

// Splits facets by chords and adds redundant vertices on edges; the surface
// stays the same. Splits do not agree across edges (T-junctions).
inline Mesh Subdivide(pbt::Src& s, const Mesh& m, size_t max_cuts) {
  Mesh r = m;
  for (size_t k = 0; s.more(k, 0, max_cuts) && !r.empty(); ++k) {
    size_t f = s.draw(r.size());
    Loop l = r[f];
    size_t n = l.size();
    size_t i = s.draw(n), j = s.draw(n);
    static const Q ts[5] = {Q(0), Q(1, 2), Q(1, 3), Q(3, 4), Q(2, 5)};
    Q ti = ts[s.draw(5)], tj = ts[s.draw(5)];
    if (i == j) {
      // Only a redundant vertex.
      if (ti == 0) continue;
      l.insert(l.begin() + i + 1, l[i] + (l[(i + 1) % n] - l[i]) * ti);
      r[f] = l;
      continue;
    }
    if (i > j) { std::swap(i, j); std::swap(ti, tj); }
    P3 a = l[i] + (l[(i + 1) % n] - l[i]) * ti;
    P3 b = l[j] + (l[(j + 1) % n] - l[j]) * tj;
    // Loop 1: a, l[i+1..j], b. Loop 2: b, l[j+1..i], a.
    auto build = [](std::vector<P3> v) {
      Loop o;
      for (const P3& p : v) {
        if (o.empty() || o.back() != p) o.push_back(p);
      }
      while (o.size() > 1 && o.front() == o.back()) o.pop_back();
      return o;
    };
    std::vector<P3> v1{a}, v2{b};
    for (size_t x = i + 1; x <= j; ++x) v1.push_back(l[x]);
    v1.push_back(b);
    for (size_t x = j + 1; x < n + i + 1; ++x) v2.push_back(l[x % n]);
    v2.push_back(a);
    Loop l1 = build(v1), l2 = build(v2);
    if (l1.size() < 3 || l2.size() < 3) continue;
    if (AreaVec(l1).IsZero() || AreaVec(l2).IsZero()) continue;
    r[f] = l1;
    r.push_back(l2);
  }
  return r;
}

// Closed operand with winding numbers of any kind.
inline Mesh GenOperand(pbt::Src& s, const std::vector<Mesh>& earlier) {
  Mesh m;
  int kind = s.draw(20);
  auto base = [&]() -> Mesh {
    if (!earlier.empty() && s.chance(1, 4)) {
      const Mesh& e = s.pick(earlier);
      if (s.flip()) return e;
      long x = s.range(-1, 1), y = s.range(-1, 1), z = s.range(-1, 1);
      return Translate(e, IP(x, y, z));
    }
    return GenShape(s);
  };
  if (kind < 12) {
    m = base();
  } else if (kind < 15) {
    m = base();
    Append(m, base());
  } else if (kind < 17) {
    // A component turned inside out (a void where it lies inside the other).
    m = base();
    Append(m, Flip(base()));
  } else if (kind == 17) {
    m = Flip(base());
  } else if (kind == 18) {
    // Sheet without volume: facets together with their reverses.
    Mesh b = base();
    if (!b.empty()) {
      Loop l = s.pick(b);
      if (s.flip()) m = base();
      m.push_back(l);
      std::reverse(l.begin(), l.end());
      m.push_back(l);
    }
  } else {
    // Nothing at all.
  }
  if (s.chance(1, 3)) m = Subdivide(s, m, 6);
  return m;
}

// ---------------------------------------------------------------------------
// Maps of space

struct Affine {
  Q m[3][3];
  P3 t;
  Q det() const {
    return Det(P3(m[0][0], m[0][1], m[0][2]), P3(m[1][0], m[1][1], m[1][2]),
               P3(m[2][0], m[2][1], m[2][2]));
  }
  P3 operator()(const P3& p) const {
    P3 r = t;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) if (m[i][j] != 0) r[i] += m[i][j] * p[j];
    return r;
  }
  // Keeps facets outward.
  Mesh operator()(const Mesh& a) const {
    Mesh r = a;
    bool flip = det() < 0;
    for (Loop& l : r) {
      for (P3& p : l) p = (*this)(p);
      if (flip) std::reverse(l.begin(), l.end());
    }
    return r;
  }
};
inline Affine Identity() {
  Affine a;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.m[i][j] = i == j;
  a.t = IP(0, 0, 0);
  return a;
}
// kinds: identity, axis permutation with signs, small shear, general, huge and
// tiny scales, far translation.
inline Affine GenAffine(pbt::Src& s, bool integer = false) {
  Affine a = Identity();
  switch (s.draw(8)) {
    case 0: case 1: break;
    case 2: {
      int p = s.draw(3);
      bool sw = s.flip();
      Affine b = a;
      for (int i = 0; i < 3; ++i) {
        int src = (i + p) % 3;
        if (sw && src != 2) src = 1 - src;
        for (int j = 0; j < 3; ++j) b.m[i][j] = src == j ? (s.flip() ? -1 : 1) : 0;
      }
      a = b;
      break;
    }
    case 3: {
      for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) a.m[i][j] = Q(s.range(-2, 2));
      break;
    }
    case 4: case 5: {
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.m[i][j] += Q(s.range(-3, 3));
      break;
    }
    case 6: {
      Z k = Pow2(s.draw(100));
      for (int i = 0; i < 3; ++i) a.m[i][i] = Q(k);
      for (int i = 0; i < 3; ++i) a.t[i] = Q(GenZ(s, 2));
      break;
    }
    default: {
      // Big unrelated entries: nothing cancels by luck.
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.m[i][j] = Q(Z(s.range(-1000000, 1000000)));
      for (int i = 0; i < 3; ++i) a.t[i] = Q(GenZ(s, 1));
      break;
    }
  }
  if (!integer && s.chance(1, 4)) {
    Q f = Frac(Z(1), s.flip() ? Pow2(s.draw(60)) : Z(1 + (long)s.draw(30)));
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) a.m[i][j] *= f; a.t[i] *= f; }
  }
  if (a.det() == 0) throw pbt::Discard();
  return a;
}

// ---------------------------------------------------------------------------
// To and from the library

struct RepStyle {
  bool scales = false;       // random homogeneous weights and plane scales
  bool negative = false;     // including negative weights
  bool any_drop = false;     // any usable drop dimension
  bool rotate = false;       // random first vertex
};
inline RepStyle GenRepStyle(pbt::Src& s) {
  RepStyle r;
  switch (s.draw(4)) {
    case 0: case 1: break;
    case 2: r.scales = true; r.any_drop = true; r.rotate = true; break;
    default: r.scales = r.negative = r.any_drop = r.rotate = true; break;
  }
  return r;
}
inline HalfSpace3 PlaneOf(const Loop& l, const Z& scale) {
  P3 n = AreaVec(l);
  Pl p;
  // Least integer normal.
  Z den = CommonDen(n);
  P3 ni = n * Q(den);
  Z g = gcd(gcd(ni[0].get_num(), ni[1].get_num()), ni[2].get_num());
  ni = ni * Frac(Z(1), g);
  return Plane(ni, Dot(ni, l[0]), scale);
}
inline walnut::MutableConvexPolygon<> ToPoly(pbt::Src& s, const Loop& loop, const RepStyle& st) {
  Loop l = loop;
  if (st.rotate) std::rotate(l.begin(), l.begin() + s.draw(l.size()), l.end());
  HalfSpace3 plane = PlaneOf(l, st.scales ? GenScale(s, false) : Z(1));
  std::vector<int> dims;
  for (int i = 0; i < 3; ++i) if (!plane.normal().components()[i].IsZero()) dims.push_back(i);
  int drop = st.any_drop ? dims[s.draw(dims.size())] : dims[0];
  std::vector<HomoPoint3> v;
  for (const P3& p : l) {
    v.push_back(Homo(p, st.scales ? GenScale(s, st.negative) : Z(1)));
  }
  return walnut::MutableConvexPolygon<>(plane, drop, v);
}
inline std::vector<walnut::MutableConvexPolygon<>> ToPolys(pbt::Src& s, const Mesh& m,
                                                          const RepStyle& st) {
  std::vector<walnut::MutableConvexPolygon<>> r;
  for (const Loop& l : m) r.push_back(ToPoly(s, l, st));
  return r;
}
template <class Poly> Loop FromPoly(const Poly& p) {
  Loop l;
  for (size_t i = 0; i < p.vertex_count(); ++i) l.push_back(ToP(p.vertex(i)));
  return l;
}
template <class Polys> Mesh FromPolys(const Polys& ps) {
  Mesh m;
  for (const auto& p : ps) m.push_back(FromPoly(p));
  return m;
}

// Exact validity of a polygon of the library: at least 3 vertices, all in the
// plane, turning the right way, edge lines through the right vertices in the
// right direction. With `strict`, no three consecutive vertices on a line.
template <class Poly> void CheckPoly(const Poly& p, bool strict, const char* what) {
  size_t n = p.vertex_count();
  PBT_CHECK(n >= 3, what << ": polygon has " << n << " vertices");
  Loop l = FromPoly(p);
  Pl pl = ToPl(p.plane());
  PBT_CHECK(!pl.n.IsZero(), what << ": zero plane normal");
  PBT_CHECK(p.drop_dimension() >= 0 && p.drop_dimension() < 3 && pl.n[p.drop_dimension()] != 0,
            what << ": bad drop dimension " << p.drop_dimension() << " for " << pl);
  Q turns = 0;
  for (size_t i = 0; i < n; ++i) {
    const P3& a = l[i];
    const P3& b = l[(i + 1) % n];
    const P3& c = l[(i + 2) % n];
    PBT_CHECK(pl.Side(a) == 0, what << ": vertex " << a << " is not in the plane " << pl << " of " << l);
    PBT_CHECK(a != b, what << ": repeated vertex " << a << " in " << l);
    P3 t = Cross(b - a, c - b);
    int sg = sgn(Dot(t, pl.n));
    PBT_CHECK(sg >= 0 && (sg > 0 || Dot(b - a, c - b) > 0), what << ": not convex at " << b << " in " << l << " plane " << pl);
    if (strict) PBT_CHECK(sg > 0, what << ": redundant vertex " << b << " in " << l);
    const auto& line = p.edge(i).line();
    P3 d = ToP(line.d());
    P3 m = ToP(line.m());
    PBT_CHECK(SameDir(d, b - a), what << ": edge line direction " << d << " at " << a << " -> " << b);
    PBT_CHECK(m == Cross(a, d), what << ": edge line moment " << m << " d " << d << " at " << a << " -> " << b);
  }
  // Locally convex everywhere: simple if it turns around exactly once.
  int di = (p.drop_dimension() + 1) % 3, dj = (p.drop_dimension() + 2) % 3;
  int changes = 0;
  bool last = false;
  for (size_t i = 0; i <= n; ++i) {
    P3 d = l[(i + 1) % n] - l[i % n];
    bool half = d[dj] < 0 || (d[dj] == 0 && d[di] < 0);
    if (i > 0 && half != last) ++changes;
    last = half;
  }
  PBT_CHECK(changes == 2, what << ": not a simple convex polygon " << l);
}

// Generic point in the interior of a convex loop.
inline P3 InnerPoint(pbt::Src& s, const Loop& l) {
  P3 r(0, 0, 0);
  Q sum = 0;
  for (const P3& p : l) {
    Q w(static_cast<long>(1000 + s.draw(9973)));
    r = r + p * w;
    sum += w;
  }
  return r * (Q(1) / sum);
}

}  // namespace gen
#endif
