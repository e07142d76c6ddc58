// Single convex polygons: generators, edge data that can be followed, and
// split planes chosen to hit degenerate positions.
#ifndef VERIF_POLY_H
#define VERIF_POLY_H

#include "solid.h"
#include "structure.h"
#include "walnut/aabb_convex_polygon.h"
#include "walnut/bsp_polygon.h"

namespace gen {

// Edge data with a name, the way it was made, and a veto on merging.
struct Tag : walnut::EdgeInfoRoot {
  enum How { kOrig, kVertex, kLine, kBoth };
  long id = -1;
  int how = kOrig;
  int merges = 0;          // how many edges were merged into this one
  bool sticky = false;     // refuses to be merged

  Tag() = default;
  Tag(const Tag& o) : EdgeInfoRoot(o), id(o.id), how(o.how), merges(o.merges), sticky(o.sticky) {}
  explicit Tag(const walnut::EdgeInfoRoot&) {}
  Tag(walnut::RValueKey<Tag> o) noexcept : EdgeInfoRoot(walnut::RValueKey<EdgeInfoRoot>(o)) { *this = o.get(); }
  Tag(const Tag& p, const HomoPoint3&) : Tag(p) { how = kVertex; }
  Tag(const Tag& p, const PluckerLine&) : Tag(p) { how = kLine; }
  Tag(const Tag& p, const HomoPoint3&, const PluckerLine&) : Tag(p) { how = kBoth; }
  Tag& operator=(const Tag& o) { id = o.id; how = o.how; merges = o.merges; sticky = o.sticky; return *this; }
  Tag& operator=(walnut::RValueKey<Tag> o) noexcept { *this = o.get(); return *this; }
  bool operator==(const Tag& o) const { return id == o.id && how == o.how && merges == o.merges && sticky == o.sticky; }
  bool operator!=(const Tag& o) const { return !(*this == o); }
  bool CanMerge(const Tag& next) const { return !sticky && !next.sticky; }
  std::ostream& Approximate(std::ostream& out) const { return out << " tag " << id; }
 protected:
  void Merge(Tag& next) { merges += 1 + next.merges; }
  template <typename E> void EdgeMoved(walnut::ConvexPolygon<E>& t) { walnut::EdgeInfoRoot::EdgeMoved(t); }
};
inline std::ostream& operator<<(std::ostream& o, const Tag& t) {
  static const char* n[] = {"", "v", "l", "b"};
  return o << "#" << t.id << n[t.how] << (t.sticky ? "!" : "") << (t.merges ? "+" : "");
}

// Convex outline in the plane: random vectors sorted by angle.
inline Loop GenOutline(pbt::Src& s, size_t max_n, bool redundant) {
  long r = 1 + (s.flip() ? s.draw(3) : s.draw(12));
  std::vector<std::array<long, 2>> v;
  long sx = 0, sy = 0;
  size_t want = s.chance(1, 3) ? s.size(3, max_n) : s.size(3, std::min<size_t>(max_n, 6));
  // Rarely far more sides than usual.
  if (s.chance(1, 32)) { want = s.size(max_n, 4 * max_n); r = 40; }
  while (v.size() + 1 < want) {
    long x = s.range(-r, r), y = s.range(-r, r);
    if (x == 0 && y == 0) x = 1;
    v.push_back({x, y});
    sx += x;
    sy += y;
  }
  if (sx || sy) v.push_back({-sx, -sy});
  auto half = [](const std::array<long, 2>& a) { return a[1] < 0 || (a[1] == 0 && a[0] < 0); };
  std::stable_sort(v.begin(), v.end(), [&](const std::array<long, 2>& a, const std::array<long, 2>& b) {
    if (half(a) != half(b)) return half(a) < half(b);
    return a[0] * b[1] - a[1] * b[0] > 0;
  });
  Loop l;
  P3 p = IP(0, 0, 0);
  for (size_t i = 0; i < v.size(); ++i) {
    bool same = i > 0 && v[i][0] * v[i - 1][1] == v[i][1] * v[i - 1][0] && half(v[i]) == half(v[i - 1]);
    if (same && !redundant) l.pop_back();
    l.push_back(p + IP(v[i][0], v[i][1], 0));
    p = l.back();
  }
  if (AreaVec(l).IsZero()) throw pbt::Discard();
  return l;
}
inline bool Redundant(const Loop& l, size_t i) {
  size_t n = l.size();
  return Cross(l[i] - l[(i + n - 1) % n], l[(i + 1) % n] - l[i]).IsZero();
}
inline bool HasRedundant(const Loop& l) {
  for (size_t i = 0; i < l.size(); ++i) if (Redundant(l, i)) return true;
  return false;
}

// Convex polygon in space. Some are cut, so that the vertices have unrelated
// denominators.
inline Loop GenConvex(pbt::Src& s, size_t max_n, bool redundant, bool integer = false) {
  Loop l = GenOutline(s, max_n, redundant);
  int p = s.draw(3);
  for (P3& a : l) a = P3(a[(3 - p) % 3], a[(4 - p) % 3], a[(5 - p) % 3]);
  Affine f = GenAffine(s, integer);
  for (P3& a : l) a = f(a);
  if (s.flip()) std::reverse(l.begin(), l.end());
  if (!integer) {
    for (size_t k = 0; s.more(k, 0, 3); ++k) {
      P3 n = AreaVec(l);
      size_t i = s.draw(l.size()), j = s.draw(l.size());
      static const Q ts[6] = {Q(0), Q(1, 2), Q(1, 3), Q(3, 4), Q(2, 5), Q(123456, 1234567)};
      P3 a = l[i] + (l[(i + 1) % l.size()] - l[i]) * ts[s.draw(6)];
      P3 b = l[j] + (l[(j + 1) % l.size()] - l[j]) * ts[s.draw(6)];
      Pl h;
      h.n = Cross(b - a, n);
      if (h.n.IsZero()) continue;
      if (s.flip()) h.n = -h.n;
      h.d = Dot(h.n, a);
      Loop c = ClipConvex(l, h);
      Loop o;
      for (const P3& q : c) if (o.empty() || o.back() != q) o.push_back(q);
      while (o.size() > 1 && o.front() == o.back()) o.pop_back();
      if (o.size() < 3 || AreaVec(o).IsZero()) continue;
      if (!redundant && HasRedundant(o)) continue;
      l = o;
    }
  }
  return l;
}

// Point in the plane of the polygon: vertex, on an edge (or its extension), or
// anywhere.
inline P3 PlanePoint(pbt::Src& s, const Loop& l) {
  size_t n = l.size();
  size_t i = s.draw(n);
  const P3& a = l[i];
  switch (s.draw(5)) {
    case 0: case 1: return a;
    case 2: {
      static const Q ts[6] = {Q(1, 2), Q(1, 3), Q(3, 4), Q(-1), Q(5, 2), Q(1, 1000003)};
      return a + (l[(i + 1) % n] - a) * ts[s.draw(6)];
    }
    case 3: return InnerPoint(s, l);
    default: {
      P3 u = l[1] - l[0], v = l[2] - l[0];
      for (size_t k = 2; Cross(u, v).IsZero(); ++k) v = l[k] - l[0];
      Q f = GenRat(s), g = GenRat(s);
      return a + u * f + v * g;
    }
  }
}
// Plane related to the polygon.
inline Pl SplitPlane(pbt::Src& s, const Loop& l) {
  P3 n = AreaVec(l);
  Pl h;
  int kind = s.draw(12);
  if (kind == 0) {
    h.n = s.flip() ? n : -n;
    h.d = Dot(h.n, l[0]);
    if (s.flip()) h.d += GenRat(s);
    return h;
  }
  if (kind == 1) {
    h.n = IP(s.range(-2, 2), s.range(-2, 2), s.range(-2, 2));
    if (h.n.IsZero()) h.n = IP(1, 0, 0);
    h.d = GenRat(s);
    return h;
  }
  P3 a = PlanePoint(s, l), b = PlanePoint(s, l);
  if (a == b) b = a + (l[1] - l[0]);
  P3 dir;
  switch (s.draw(3)) {
    case 0: dir = n; break;
    case 1: dir = IP(s.range(-2, 2), s.range(-2, 2), s.range(-2, 2)); break;
    default: dir = GenPoint(s); break;
  }
  h.n = Cross(b - a, dir);
  if (h.n.IsZero()) h.n = Cross(b - a, n);
  h.d = Dot(h.n, a);
  return h;
}

template <class Poly> void SetTags(Poly& p, long first) {
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    static_cast<Tag&>(p.edge(i)).id = first + static_cast<long>(i);
  }
}

// The less used constructors, where a polygon type has them.
template <class Poly>
bool OtherForm(pbt::Src& s, const Loop& l, const RepStyle& st, const HalfSpace3& h, int drop, Poly* out, std::true_type) {
  if (!st.scales && s.chance(1, 4)) {
    bool whole = true;
    for (const P3& p : l) for (int d = 0; d < 3; ++d) whole = whole && p[d].get_den() == 1;
    if (whole) {
      std::vector<walnut::Point3> v;
      for (size_t i = 0; i < l.size(); ++i) {
        const P3& p = l[(i + 1) % l.size()];
        v.emplace_back(FromZ(p[0].get_num()), FromZ(p[1].get_num()), FromZ(p[2].get_num()));
      }
      *out = Poly(h, drop, v);
      return true;
    }
  }
  auto at = [&](size_t i) { return Homo(l[i], st.scales ? GenScale(s, st.negative) : Z(1)); };
  if (l.size() == 3 && s.chance(1, 4)) {
    HalfSpace3 plane(h);
    HomoPoint3 v[3] = {at(0), at(1), at(2)};
    *out = Poly(std::move(plane), drop, std::move(v));
    return true;
  }
  if (l.size() == 4 && s.chance(1, 4)) {
    HalfSpace3 plane(h);
    HomoPoint3 v[4] = {at(0), at(1), at(2), at(3)};
    *out = Poly(std::move(plane), drop, std::move(v));
    return true;
  }
  return false;
}
// Whether a type has them is only known of types that do not forward arguments.
template <class Poly>
struct HasOtherForm : std::integral_constant<bool,
    std::is_constructible<Poly, const HalfSpace3&, int, const std::vector<walnut::Point3>&>::value &&
    std::is_constructible<Poly, HalfSpace3&&, int, HomoPoint3 (&&)[3]>::value && std::is_move_assignable<Poly>::value> {};
template <class P, class E>
struct HasOtherForm<walnut::BSPPolygon<P, E>> : std::false_type {};
template <class Poly>
bool OtherForm(pbt::Src&, const Loop&, const RepStyle&, const HalfSpace3&, int, Poly*, std::false_type) { return false; }

// Library polygon whose vertex order equals the loop.
template <class Poly> Poly MakePoly(pbt::Src& s, const Loop& l, const RepStyle& st) {
  HalfSpace3 plane = PlaneOf(l, st.scales ? GenScale(s, false) : Z(1));
  std::vector<int> dims;
  for (int i = 0; i < 3; ++i) if (!plane.normal().components()[i].IsZero()) dims.push_back(i);
  int drop = st.any_drop ? dims[s.draw(dims.size())] : dims[0];
  Poly other;
  if (OtherForm(s, l, st, plane, drop, &other, HasOtherForm<Poly>())) return other;
  std::vector<HomoPoint3> v;
  // The constructor starts with the last point of the list.
  for (size_t i = 0; i < l.size(); ++i) {
    v.push_back(Homo(l[(i + 1) % l.size()], st.scales ? GenScale(s, st.negative) : Z(1)));
  }
  return Poly(plane, drop, v);
}

// ---- Model of a polygon with edge data ----
struct Piece {
  Loop l;
  std::vector<Tag> tags;
};
inline Tag Made(const Tag& parent, int how) { Tag t = parent; t.how = how; return t; }

template <class Poly> Piece PieceOf(const Poly& p) {
  Piece m;
  m.l = FromPoly(p);
  for (size_t i = 0; i < m.l.size(); ++i) m.tags.push_back(static_cast<const Tag&>(p.edge(i)));
  return m;
}
inline std::ostream& operator<<(std::ostream& o, const Piece& m) {
  for (size_t i = 0; i < m.l.size(); ++i) o << m.l[i] << m.tags[i] << " ";
  return o;
}

// Crossing of edge i with the plane.
inline P3 Crossing(const Loop& l, size_t i, const Pl& h) {
  const P3& a = l[i];
  const P3& b = l[(i + 1) % l.size()];
  Q ea = h.Eval(a), eb = h.Eval(b);
  return a + (b - a) * Q(ea / (ea - eb));
}

// The two pieces of a polygon with vertices strictly on both sides. Only one
// vertex of each run on the plane can exist (the polygon is convex).
inline std::pair<Piece, Piece> ModelSplit(const Piece& m, const Pl& h) {
  const Loop& l = m.l;
  size_t n = l.size();
  std::vector<int> side;
  for (const P3& v : l) side.push_back(h.Side(v));
  size_t nb = 0;  // first negative vertex
  while (!(side[nb] < 0 && side[(nb + n - 1) % n] >= 0)) ++nb;
  Piece neg, pos;
  size_t i = nb;
  for (; side[i % n] < 0; ++i) { neg.l.push_back(l[i % n]); neg.tags.push_back(m.tags[i % n]); }
  if (side[i % n] == 0) {
    neg.l.push_back(l[i % n]); neg.tags.push_back(Made(m.tags[i % n], Tag::kLine));
    pos.l.push_back(l[i % n]); pos.tags.push_back(m.tags[i % n]);
    ++i;
  } else {
    size_t e = (i + n - 1) % n;
    P3 x = Crossing(l, e, h);
    neg.l.push_back(x); neg.tags.push_back(Made(m.tags[e], Tag::kBoth));
    pos.l.push_back(x); pos.tags.push_back(Made(m.tags[e], Tag::kVertex));
  }
  for (; side[i % n] > 0; ++i) { pos.l.push_back(l[i % n]); pos.tags.push_back(m.tags[i % n]); }
  if (side[i % n] == 0) {
    pos.l.push_back(l[i % n]); pos.tags.push_back(Made(m.tags[i % n], Tag::kLine));
    neg.l.push_back(l[i % n]); neg.tags.push_back(m.tags[i % n]);
  } else {
    size_t e = (i + n - 1) % n;
    P3 x = Crossing(l, e, h);
    pos.l.push_back(x); pos.tags.push_back(Made(m.tags[e], Tag::kBoth));
    neg.l.push_back(x); neg.tags.push_back(Made(m.tags[e], Tag::kVertex));
  }
  return {neg, pos};
}

// Joins a and b along edge i of a and edge j of b (same end points, opposite
// directions). Returns false when the union of the two is not a convex polygon
// with the orientation of a. `join` decides about removing the vertex between
// two edges on one line. `dropped` counts removed vertices.
template <class Join>
bool ModelMergeJoin(Piece& a, size_t i, const Piece& b, size_t j, int* dropped, Join may_join) {
  size_t n = a.l.size(), m = b.l.size();
  P3 na = AreaVec(a.l);
  if (!SameDir(na, AreaVec(b.l))) return false;
  auto dir = [](const Loop& l, size_t k) { return l[(k + 1) % l.size()] - l[k % l.size()]; };
  P3 a_prev = dir(a.l, i + n - 1), a_next = dir(a.l, i + 1);
  P3 b_prev = dir(b.l, j + m - 1), b_next = dir(b.l, j + 1);
  Q t1 = Dot(Cross(a_prev, b_next), na), t2 = Dot(Cross(b_prev, a_next), na);
  if (t1 < 0 || (t1 == 0 && Dot(a_prev, b_next) < 0)) return false;
  if (t2 < 0 || (t2 == 0 && Dot(b_prev, a_next) < 0)) return false;
  // Cyclic sequence starting with the first edge of a after the shared one.
  Piece r;
  for (size_t k = 1; k < n; ++k) { r.l.push_back(a.l[(i + k) % n]); r.tags.push_back(a.tags[(i + k) % n]); }
  for (size_t k = 1; k < m; ++k) { r.l.push_back(b.l[(j + k) % m]); r.tags.push_back(b.tags[(j + k) % m]); }
  auto join = [&](size_t prev, size_t next) {
    if (!may_join(r.tags[prev], r.tags[next])) return false;
    r.tags[prev].merges += 1 + r.tags[next].merges;
    r.l.erase(r.l.begin() + next);
    r.tags.erase(r.tags.begin() + next);
    if (dropped) ++*dropped;
    return true;
  };
  if (t1 == 0) join(n - 2, n - 1);
  if (t2 == 0) join(r.l.size() - 1, 0);
  a = r;
  return true;
}
inline bool ModelMerge(Piece& a, size_t i, const Piece& b, size_t j, int* dropped = nullptr) {
  return ModelMergeJoin(a, i, b, j, dropped, [](const Tag& p, const Tag& n) { return !p.sticky && !n.sticky; });
}
// Same cyclic sequence?
inline bool SameCycle(const Piece& a, const Piece& b) {
  size_t n = a.l.size();
  if (b.l.size() != n) return false;
  if (n == 0) return true;
  for (size_t o = 0; o < n; ++o) {
    bool ok = true;
    for (size_t i = 0; ok && i < n; ++i) ok = a.l[i] == b.l[(i + o) % n] && a.tags[i] == b.tags[(i + o) % n];
    if (ok) return true;
  }
  return false;
}

// The bounding box and the extreme vertices kept by an AABBConvexPolygon.
template <class Poly> void CheckBox(const Poly& p, const char* what) {
  Loop l = FromPoly(p);
  Q den(ToZ(p.aabb().denom()));
  PBT_CHECK(den > 0, what << ": denominator of the box is " << den);
  for (int d = 0; d < 3; ++d) {
    Q lo = l[0][d], hi = l[0][d];
    for (const P3& q : l) { if (q[d] < lo) lo = q[d]; if (q[d] > hi) hi = q[d]; }
    PBT_CHECK(p.min_vertex_index(d) < l.size() && p.max_vertex_index(d) < l.size(), what << ": extreme vertex index out of range");
    PBT_CHECK(l[p.min_vertex_index(d)][d] == lo, what << ": vertex " << p.min_vertex_index(d) << " is not the lowest in dimension " << d);
    PBT_CHECK(l[p.max_vertex_index(d)][d] == hi, what << ": vertex " << p.max_vertex_index(d) << " is not the highest in dimension " << d);
    Q mn(ToZ(p.aabb().min_point_num().components()[d])), mx(ToZ(p.aabb().max_point_num().components()[d]));
    Q a = lo * den, b = hi * den;
    PBT_CHECK(mn <= a && a < mn + 1, what << ": lower bound " << mn << "/" << den << " of dimension " << d << " for " << lo);
    PBT_CHECK(b <= mx && mx < b + 1, what << ": upper bound " << mx << "/" << den << " of dimension " << d << " for " << hi);
  }
}

}  // namespace gen
#endif
