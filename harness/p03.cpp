// P03: queries of a convex polygon against exhaustive evaluation.
#include "poly.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::AssignableWrapper;
using walnut::ConvexPolygon;
using walnut::MutableConvexPolygon;

namespace {

using TagPoly = MutableConvexPolygon<Tag>;
using Edge = TagPoly::EdgeRep;

struct Shape {
  Loop l;
  TagPoly p;
  Pl plane;
  std::vector<int> dims;  // usable drop dimensions
};

struct V2 { Q x, y; };
V2 Drop(const P3& p, int d) { return V2{p[(d + 1) % 3], p[(d + 2) % 3]}; }
Q D2(const V2& a, const V2& b) { return a.x * b.x + a.y * b.y; }

// The first of the best vertices in cyclic order (the one whose predecessor is
// not as good).
size_t Extreme(const std::vector<Q>& f) {
  size_t n = f.size();
  Q best = f[0];
  for (const Q& q : f) if (q > best) best = q;
  for (size_t i = 0; i < n; ++i) {
    if (f[i] == best && f[(i + n - 1) % n] != best) return i;
  }
  return n;
}

V2 GenV2(pbt::Src& s, const Loop& l, int d) {
  V2 v;
  switch (s.draw(4)) {
    case 0: v = V2{Q(s.range(-3, 3)), Q(s.range(-3, 3))}; break;
    case 1: case 2: {
      // Along or across an edge or a diagonal.
      P3 e = s.pick(l) - s.pick(l);
      Z den = CommonDen(e);
      V2 a = Drop(e * Q(den), d);
      v = s.flip() ? V2{-a.y, a.x} : a;
      break;
    }
    default: v = V2{Q(GenCoord(s)), Q(GenCoord(s))}; break;
  }
  if (s.flip()) { v.x = -v.x; v.y = -v.y; }
  return v;
}
Vector2 ToV2(const V2& v) { return Vector2(FromZ(v.x.get_num()), FromZ(v.y.get_num())); }

void Searches(pbt::Src& s, pbt::Ctx& c, const Shape& sh) {
  const TagPoly& p = sh.p;
  size_t n = sh.l.size();
  int d = s.pick(sh.dims);
  V2 v = GenV2(s, sh.l, d);
  Vector2 lv = ToV2(v);
  if (v.x == 0 && v.y == 0) {
    PBT_CHECK(p.GetExtremeIndexBisect(lv, d) == static_cast<size_t>(-1), "extreme vertex in direction zero");
    return;
  }
  std::vector<Q> f;
  for (const P3& q : sh.l) f.push_back(D2(Drop(q, d), v));
  std::vector<int> edge(n);
  for (size_t i = 0; i < n; ++i) {
    edge[i] = sgn(Q(f[(i + 1) % n] - f[i]));
    if (edge[i] == 0) { c.label("edge across the direction"); c.nontrivial(); }
  }
  auto opp = p.GetOppositeEdgeIndicesBisect(lv, d);
  PBT_CHECK(opp.first < n && edge[opp.first] > 0, "edge " << opp.first << " does not point along (" << v.x << "," << v.y << ")");
  PBT_CHECK(opp.second < n && edge[opp.second] < 0, "edge " << opp.second << " does not point against (" << v.x << "," << v.y << ")");
  size_t want = Extreme(f);
  size_t got = p.GetExtremeIndexBisect(lv, d);
  PBT_CHECK(got == want, "extreme vertex of (" << v.x << "," << v.y << ") is " << want << ", reported " << got);

  // Half-planes at interesting distances, all hints.
  Q dist;
  switch (s.draw(4)) {
    case 0: case 1: dist = s.pick(f); break;
    case 2: dist = (s.pick(f) + s.pick(f)) / 2; break;
    default: dist = s.pick(f) + GenRat(s); break;
  }
  Z den = dist.get_den() * GenScale(s, false);
  HalfSpace2 h(FromZ(v.x.get_num() * den), FromZ(v.y.get_num() * den), FromZ(Q(dist * Q(den)).get_num()));
  std::vector<int> side;
  bool hp = false, hn = false, hz = false;
  for (const Q& q : f) {
    side.push_back(sgn(Q(q - dist)));
    hp |= side.back() > 0;
    hn |= side.back() < 0;
    hz |= side.back() == 0;
  }
  if (hz) { c.label("vertex on the border of the half-plane"); c.nontrivial(); }
  std::vector<Q> g;
  for (const Q& q : f) g.push_back(-q);
  size_t best = Extreme(f), worst = Extreme(g);
  std::vector<size_t> along, against;
  for (size_t i = 0; i < n; ++i) { if (edge[i] > 0) along.push_back(i); if (edge[i] < 0) against.push_back(i); }
  for (size_t k = 0; s.more(k, 1, 6); ++k) {
    size_t a = s.pick(along), b = s.pick(against);
    auto r = p.GetPosSideVertex(h, d, a, b);
    size_t ri = r.second % n;
    PBT_CHECK((r.first > 0) == hp && (r.first >= 0) == (hp || side[best] == 0), "GetPosSideVertex type " << r.first << " from edges " << a << ", " << b);
    if (hp) PBT_CHECK(side[ri] > 0, "GetPosSideVertex: vertex " << r.second << " is not on the positive side");
    else PBT_CHECK(r.second == best, "GetPosSideVertex: vertex " << r.second << " instead of " << best);
    r = p.GetNegSideVertex(h, d, a, b);
    ri = r.second % n;
    PBT_CHECK((r.first < 0) == hn && (r.first <= 0) == (hn || side[worst] == 0), "GetNegSideVertex type " << r.first << " from edges " << a << ", " << b);
    if (hn) PBT_CHECK(side[ri] < 0, "GetNegSideVertex: vertex " << r.second << " is not on the negative side");
    else PBT_CHECK(r.second == worst, "GetNegSideVertex: vertex " << r.second << " instead of " << worst);
  }
  if (hp && hn) {
    c.label("half-plane crosses");
    std::vector<size_t> neg, pos;
    for (size_t i = 0; i < n; ++i) { if (side[i] < 0) neg.push_back(i); if (side[i] > 0) pos.push_back(i); }
    for (size_t k = 0; s.more(k, 1, 6); ++k) {
      size_t a = s.pick(neg), b = s.pick(pos);
      size_t x = a;
      while (side[(x + 1) % n] <= 0) ++x;
      auto r = p.GetLastNegSideVertex(h, d, a, -1, b);
      PBT_CHECK(r.second == x % n && SgnI(r.first) == side[x % n], "GetLastNegSideVertex(" << a << ", " << b << ") = " << r.first << ", " << r.second << " instead of " << x % n);
      x = b;
      while (side[(x + 1) % n] >= 0) ++x;
      r = p.GetLastPosSideVertex(h, d, a, b, 1);
      PBT_CHECK(r.second == x % n && SgnI(r.first) == side[x % n], "GetLastPosSideVertex(" << a << ", " << b << ") = " << r.first << ", " << r.second << " instead of " << x % n);
    }
  }
  for (int k = 0; k < 3; ++k) {
    size_t b = s.draw(2 * n), a = s.draw(b + n + 1);
    size_t r = p.GetGreaterCycleIndex(a, b);
    PBT_CHECK(r >= a && r < a + n && r % n == b % n, "GetGreaterCycleIndex(" << a << ", " << b << ") = " << r << " with " << n << " vertices");
  }
}

void Extreme3(pbt::Src& s, pbt::Ctx& c, const Shape& sh) {
  P3 v;
  switch (s.draw(4)) {
    case 0: v = sh.plane.n * Q(s.range(-2, 2)); break;
    case 1: { P3 e = s.pick(sh.l) - s.pick(sh.l); v = e * Q(CommonDen(e)); if (s.flip()) v = Cross(v, sh.plane.n); break; }
    case 2: v = IP(s.range(-1, 1), s.range(-1, 1), s.range(-1, 1)); break;
    default: v = GenPoint(s, true); break;
  }
  // Anything along the normal changes nothing.
  if (s.chance(1, 3)) v = v + sh.plane.n * Q(s.range(-3, 3));
  std::vector<Q> f;
  for (const P3& q : sh.l) f.push_back(Dot(q, v));
  size_t got = sh.p.GetExtremeIndexBisect(IntV(v));
  if (Parallel(v, sh.plane.n)) {
    c.label("direction along the normal");
    PBT_CHECK(got == static_cast<size_t>(-1), "extreme vertex in direction " << v << " across the plane is " << got);
    return;
  }
  size_t want = Extreme(f);
  PBT_CHECK(got == want, "extreme vertex in direction " << v << " is " << want << ", reported " << got);
}

void Measures(pbt::Src& s, pbt::Ctx& c, const Shape& sh) {
  const Loop& l = sh.l;
  size_t n = l.size();
  size_t lowest = 0;
  for (size_t i = 1; i < n; ++i) if (l[i] < l[lowest]) lowest = i;
  PBT_CHECK(sh.p.GetMinimumIndex() == lowest, "GetMinimumIndex = " << sh.p.GetMinimumIndex() << " instead of " << lowest);
  P3 area = AreaVec(l);
  // Exact centroid by triangles.
  P3 cen(0, 0, 0);
  Q total = 0;
  int dd = sh.plane.n[0] != 0 ? 0 : (sh.plane.n[1] != 0 ? 1 : 2);
  for (size_t i = 1; i + 1 < n; ++i) {
    Q w = Cross(l[i] - l[0], l[i + 1] - l[0])[dd];
    cen = cen + (l[0] + l[i] + l[i + 1]) * w;
    total += w;
  }
  cen = cen * (Q(1) / (total * 3));
  for (int d = 0; d < 3; ++d) {
    auto a = sh.p.GetProjectedArea(d);
    Z den = ToZ(a.second);
    PBT_CHECK(den != 0, "GetProjectedArea: zero denominator");
    PBT_CHECK(Frac(ToZ(a.first), den) * 2 == area[d], "area without dimension " << d << " is " << area[d] / 2 << ", reported " << Frac(ToZ(a.first), den));
    if (area[d] == 0) continue;
    auto g = sh.p.GetProjectedCentroid(d);
    P3 gp = ToP(g);
    V2 w = Drop(cen, d);
    PBT_CHECK(gp[0] == w.x && gp[1] == w.y, "centroid without dimension " << d << " is (" << w.x << "," << w.y << "), reported " << gp);
  }
  PBT_CHECK(ToP(sh.p.GetCentroid()) == cen, "centroid is " << cen << ", reported " << ToP(sh.p.GetCentroid()));
  TagPoly q(sh.p);
  q.ReducePlaneNormal();
  PBT_CHECK(SameHalfSpace(ToPl(q.plane()), sh.plane), "ReducePlaneNormal changes the plane");
  PBT_CHECK(q == sh.p && sh.p == q, "polygon with reduced plane is not equal to the original");
  if (sh.p.vertex_count() > 9) c.label("10 or more vertices");
}

void Compare(pbt::Src& s, pbt::Ctx& c, const Shape& sh) {
  const Loop& l = sh.l;
  size_t n = l.size();
  RepStyle st = GenRepStyle(s);
  size_t rot = s.draw(n);
  Loop m = l;
  std::rotate(m.begin(), m.begin() + rot, m.end());
  std::vector<long> tags;
  for (size_t i = 0; i < n; ++i) tags.push_back(static_cast<long>((i + rot) % n));
  bool equal = true;
  int kind = s.draw(6);
  if (kind == 1) {
    size_t i = s.draw(n);
    tags[i] += 100;
    equal = false;
    c.label(i == 0 ? "differs in the data of the first edge" : "differs in data");
    c.nontrivial();
  } else if (kind == 2) {
    // Moves one vertex without losing convexity or the plane.
    size_t i = s.draw(n);
    P3 target = (m[(i + 1) % n] + m[(i + n - 1) % n]) * Q(1, 2);
    P3 moved = m[i] + (target - m[i]) * Q(1, 3);
    if (moved != m[i]) { m[i] = moved; equal = false; c.label("differs in a vertex"); c.nontrivial(); }
  } else if (kind == 3) {
    std::reverse(m.begin(), m.end());
    equal = false;
  } else if (kind == 4) {
    // One vertex more on an edge.
    size_t i = s.draw(n);
    m.insert(m.begin() + i + 1, (m[i] + m[(i + 1) % n]) * Q(1, 2));
    tags.insert(tags.begin() + i + 1, 55);
    equal = false;
  } else if (kind == 5) {
    P3 t = IP(s.range(-1, 1), s.range(-1, 1), s.range(-1, 1));
    if (!t.IsZero()) { for (P3& q : m) q = q + t; equal = false; }
  }
  TagPoly q = MakePoly<TagPoly>(s, m, st);
  for (size_t i = 0; i < m.size(); ++i) static_cast<Tag&>(q.edge(i)).id = tags[i];
  auto check = [&](const TagPoly& a, const TagPoly& b, bool want, const char* what) {
    PBT_CHECK((a == b) == want, what << ": == gives " << (a == b) << " for " << FromPoly(a) << " and " << FromPoly(b));
    PBT_CHECK((a != b) == !want, what << ": != gives " << (a != b) << " for " << FromPoly(a) << " and " << FromPoly(b));
  };
  check(sh.p, q, equal, "comparison");
  check(q, sh.p, equal, "comparison, swapped");
  check(q, q, true, "comparison with itself");
  TagPoly e1, e2;
  check(e1, e2, true, "empty polygons");
  check(e1, q, false, "empty and non-empty polygon");
  check(q, e1, false, "non-empty and empty polygon");
  // Without data the same without the effect of tags.
  ConvexPolygon<> a(sh.p), b(q);
  bool geo = equal || kind == 1;
  PBT_CHECK((a == b) == geo, "comparison without data gives " << (a == b));
  AABBConvexPolygon<> ba(a), bb(b);
  // Boxes may have different denominators for different weights: compare a
  // polygon with its own rotation.
  AABBConvexPolygon<> bc(ba);
  bc.RotateEdges(s.draw(n));
  PBT_CHECK(ba == bc, "polygon with box differs from its rotation");
  if (!geo) PBT_CHECK(!(ba == bb), "different polygons with boxes are equal");
}

void Validity(pbt::Src& s, pbt::Ctx& c, const Shape& sh) {
  PBT_CHECK(sh.p.IsValidState(), "IsValidState is false for a valid polygon");
  TagPoly q(sh.p);
  size_t n = sh.l.size();
  auto set = [&](size_t i, const Edge& e) { static_cast<AssignableWrapper<Edge>&>(q.edge(i)) = AssignableWrapper<Edge>(e); };
  size_t i = s.draw(n), pr = (i + n - 1) % n, nx = (i + 1) % n;
  int kind = s.draw(3);
  if (kind == 0) {
    // A vertex moved, with lines to match: out of the plane, or beyond the
    // line through its neighbours.
    P3 to;
    if (s.flip()) {
      to = sh.l[i] + sh.plane.n * Q(1, 1 + (long)s.draw(1000000000));
      c.label("vertex out of the plane");
    } else {
      P3 mid = (sh.l[pr] + sh.l[nx]) * Q(1, 2);
      if (n < 4) return;
      P3 in(0, 0, 0);
      for (size_t k = 0; k < n; ++k) if (k != i) in = in + sh.l[k];
      in = in * Q(1, (long)(n - 1));
      to = mid + (in - mid) * Q(1, 2);
      P3 tw = Cross(to - sh.l[pr], sh.l[nx] - to);
      if (Dot(tw, sh.plane.n) >= 0) return;
      c.label("reflex vertex");
    }
    HomoPoint3 v = Homo(to, GenScale(s));
    set(pr, Edge(q.vertex(pr), v));
    set(i, Edge(v, q.vertex(nx)));
  } else if (kind == 1) {
    // A line that belongs to another edge, or runs backwards.
    size_t j = s.draw(n);
    PluckerLine line = q.edge(j).line();
    if (SameDir(sh.l[(j + 1) % n] - sh.l[j], sh.l[nx] - sh.l[i]) && Parallel(sh.l[i] - sh.l[j], sh.l[nx] - sh.l[i])) line = -line;
    set(i, Edge(q.vertex(i), line));
    c.label("wrong line");
  } else {
    // Two vertices exchanged with lines to match.
    if (n < 4) return;
    for (size_t k = 0; k < n; ++k) if (Redundant(sh.l, k)) return;
    HomoPoint3 a = q.vertex(i), b = q.vertex(nx);
    size_t nn = (nx + 1) % n;
    set(pr, Edge(q.vertex(pr), b));
    set(i, Edge(b, a));
    set(nx, Edge(a, q.vertex(nn)));
    c.label("crossed outline");
  }
  c.nontrivial();
  PBT_CHECK(!q.IsValidState(), "IsValidState is true for " << FromPoly(q) << " in " << ToPl(q.plane()));
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  Shape sh;
  sh.l = GenConvex(s, 30, s.chance(1, 3));
  RepStyle st = GenRepStyle(s);
  sh.p = MakePoly<TagPoly>(s, sh.l, st);
  SetTags(sh.p, 0);
  sh.plane = ToPl(sh.p.plane());
  for (int d = 0; d < 3; ++d) if (sh.plane.n[d] != 0) sh.dims.push_back(d);
  c << "polygon " << sh.l << "\n";
  switch (s.draw(6)) {
    case 0: Extreme3(s, c, sh); break;
    case 1: Measures(s, c, sh); break;
    case 2: Compare(s, c, sh); break;
    case 3: Validity(s, c, sh); break;
    default: Searches(s, c, sh); break;
  }
  if (sh.l.size() > 3) c.nontrivial();
}

}  // namespace

PBT_MAIN((pbt::Property{"P03", "more than three vertices, a direction across an edge, a vertex exactly on the border, or a corrupted polygon", Run, 20}))
