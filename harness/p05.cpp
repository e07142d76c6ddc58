// P05: axis-aligned boxes.
#include <cmath>

#include "poly.h"
#include "walnut/aabb.h"
#include "walnut/rational.h"

using namespace gen;
using walnut::AABB;
using walnut::AABBConvexPolygon;

namespace {

struct B {
  P3 lo, hi;
  Z den;        // of the library's box
  AABB box;
};

B GenB(pbt::Src& s) {
  B b;
  b.den = s.chance(1, 3) ? Z(1) : GenScale(s, false);
  bool fine = s.chance(1, 24);
  if (fine) b.den = Pow2(s.size(200, 1500)) - static_cast<long>(s.draw(3));
  P3 p = GenPoint(s, true), d;
  for (int i = 0; i < 3; ++i) {
    // Flat boxes are boxes too.
    Z e = s.chance(1, 8) ? Z(0) : Z(abs(GenCoord(s)) + 1);
    d[i] = Q(e);
  }
  if (fine) {
    // Ordinary coordinates on a grid far finer than doubles can count.
    Q k(Z(b.den / (s.flip() ? 1 : 7)));
    p = p * k;
    d = d * k;
  }
  Q f = Frac(Z(1), b.den);
  b.lo = p * f;
  b.hi = (p + d) * f;
  b.box = AABB(IntV(p), IntV(p + d), FromZ(b.den));
  // The same box from a negative denominator.
  if (s.chance(1, 4)) b.box = AABB(IntV(-p), IntV(-p - d), FromZ(-b.den));
  return b;
}

P3 GenQuery(pbt::Src& s, const B& b) {
  P3 q;
  for (int i = 0; i < 3; ++i) {
    switch (s.draw(7)) {
      case 0: case 1: q[i] = b.lo[i]; break;
      case 2: q[i] = b.hi[i]; break;
      case 3: case 4: q[i] = (b.lo[i] + b.hi[i]) / 2; break;
      case 5: q[i] = (s.flip() ? b.lo[i] : b.hi[i]) + Frac(Z(s.flip() ? 1 : -1), Pow2(s.draw(100))); break;
      default: q[i] = GenRat(s); break;
    }
  }
  return q;
}

void Predicates(pbt::Src& s, pbt::Ctx& c, const B& b) {
  P3 q = GenQuery(s, b);
  bool in = true, border = false;
  for (int i = 0; i < 3; ++i) {
    in &= q[i] >= b.lo[i] && q[i] <= b.hi[i];
    border |= q[i] == b.lo[i] || q[i] == b.hi[i];
  }
  border &= in;
  if (border) { c.label("on the border"); c.nontrivial(); }
  HomoPoint3 h = Homo(q, GenScale(s));
  PBT_CHECK(b.box.IsInside(h) == in, "IsInside(" << q << ") is " << b.box.IsInside(h));
  PBT_CHECK(b.box.IsOnBorder(h) == border, "IsOnBorder(" << q << ") is " << b.box.IsOnBorder(h));
  if (IsInt(q)) {
    PBT_CHECK(b.box.IsInside(IntP(q)) == in, "IsInside(Point3 " << q << ") is " << b.box.IsInside(IntP(q)));
    PBT_CHECK(b.box.IsOnBorder(IntP(q)) == border, "IsOnBorder(Point3 " << q << ") is " << b.box.IsOnBorder(IntP(q)));
  }
  PBT_CHECK(ToP(b.box.min_point()) == b.lo && ToP(b.box.max_point()) == b.hi, "corners of the box");
  PBT_CHECK(ToZ(b.box.denom()) > 0, "denominator of the box is not positive");
  // Same box with another denominator.
  Z k = GenScale(s, false);
  P3 lo = b.lo * Q(b.den * k), hi = b.hi * Q(b.den * k);
  bool same = true;
  if (s.flip()) { int i = s.draw(3); hi[i] += 1; same = false; if (s.flip()) { hi[i] -= 1; lo[i] -= 1; } }
  AABB o(IntV(lo), IntV(hi), FromZ(b.den * k));
  PBT_CHECK((o == b.box) == same && (b.box == o) == same && (o != b.box) == !same, "equality of boxes is not " << same);
  // Diagonal.
  P3 d = b.hi - b.lo;
  Q sq = Dot(d, d);
  PBT_CHECK(ToZ(b.box.GetSquaredDiagonalLengthNumerator()) == sq * Q(b.den * b.den), "GetSquaredDiagonalLengthNumerator");
  if (sq < Q(Pow2(1000)) && (sq == 0 || sq > Frac(Z(1), Pow2(1000)))) {
    double want = std::sqrt(sq.get_d());
    double got = b.box.GetDiagonalLength();
    PBT_CHECK(std::fabs(got - want) <= 1e-12 * want, "diagonal is " << want << ", reported " << got);
  }
}

Pl GenBoxPlane(pbt::Src& s, const B& b) {
  auto corner = [&]() {
    P3 q;
    for (int i = 0; i < 3; ++i) q[i] = s.flip() ? b.hi[i] : b.lo[i];
    return q;
  };
  Pl h;
  switch (s.draw(5)) {
    case 0: h.n = IP(s.range(-1, 1), s.range(-1, 1), s.range(-1, 1)); break;
    case 1: {
      P3 a = corner(), e = corner() - a, f = corner() - a;
      h.n = Cross(e, f);
      break;
    }
    case 2: { h.n = IP(0, 0, 0); h.n[s.draw(3)] = Q(s.flip() ? 1 : -1); break; }
    default: h.n = GenPoint(s, true); break;
  }
  if (h.n.IsZero()) h.n = IP(0, 0, 1);
  P3 at = s.chance(2, 3) ? corner() : GenQuery(s, b);
  h.d = Dot(h.n, at);
  return h;
}

// Points of the plane inside the box: the plane polygon through all crossing
// points of the edges, found by clipping.
Loop Section(const B& b, const Pl& h) {
  // Start with a big square in the plane, clip by the six walls.
  int d = h.n[0] != 0 ? 0 : (h.n[1] != 0 ? 1 : 2);
  int i = (d + 1) % 3, j = (d + 2) % 3;
  Loop l;
  static const int ci[4] = {-1, 1, 1, -1}, cj[4] = {-1, -1, 1, 1};
  for (int k = 0; k < 4; ++k) {
    P3 q;
    q[i] = ci[k] < 0 ? Q(b.lo[i] - 1) : Q(b.hi[i] + 1);
    q[j] = cj[k] < 0 ? Q(b.lo[j] - 1) : Q(b.hi[j] + 1);
    q[d] = (h.d - h.n[i] * q[i] - h.n[j] * q[j]) / h.n[d];
    l.push_back(q);
  }
  if (h.n[d] < 0) std::reverse(l.begin(), l.end());
  for (int k = 0; k < 6 && l.size() >= 3; ++k) {
    Pl w;
    w.n = P3(0, 0, 0);
    w.n[k / 2] = (k & 1) ? 1 : -1;
    w.d = (k & 1) ? b.hi[k / 2] : -b.lo[k / 2];
    l = ClipConvex(l, w);
  }
  Loop o;
  for (const P3& q : l) if (o.empty() || o.back() != q) o.push_back(q);
  while (o.size() > 1 && o.front() == o.back()) o.pop_back();
  if (o.size() < 3 || AreaVec(o).IsZero()) o.clear();
  return o;
}
Loop Canon(Loop l) {
  // Without redundant vertices, lowest first.
  Loop o;
  for (size_t i = 0; i < l.size(); ++i) if (!Redundant(l, i)) o.push_back(l[i]);
  if (!o.empty()) std::rotate(o.begin(), std::min_element(o.begin(), o.end()), o.end());
  return o;
}

void Planes(pbt::Src& s, pbt::Ctx& c, const B& b) {
  if (s.chance(1, 24)) {
    HalfSpace3 none(0, 0, 0, (int)s.range(-2, 2));
    PBT_CHECK(b.box.IntersectPlane(none).vertex_count() == 0, "section with a plane without a normal");
  }
  Pl h = GenBoxPlane(s, b);
  HalfSpace3 hs = Plane(h.n, h.d, GenScale(s, false));
  c << "plane " << h << "\n";
  int lo = 0, hi = 0, on = 0;
  for (int k = 0; k < 8; ++k) {
    int sd = h.Side(P3(k & 1 ? b.hi[0] : b.lo[0], k & 2 ? b.hi[1] : b.lo[1], k & 4 ? b.hi[2] : b.lo[2]));
    lo += sd < 0;
    hi += sd > 0;
    on += sd == 0;
  }
  int want = on || (lo && hi) ? 0 : (lo ? -1 : 1);
  if (on) { c.label("corner on the plane"); c.nontrivial(); }
  PBT_CHECK(SgnI(b.box.GetPlaneSide(hs)) == want, "GetPlaneSide is " << b.box.GetPlaneSide(hs) << " instead of " << want);
  Loop w = Section(b, h);
  auto got = b.box.IntersectPlane(hs);
  if (w.empty()) {
    c.label("no section");
    PBT_CHECK(got.vertex_count() == 0, "section of a plane that does not cut the box: " << FromPoly(got));
    return;
  }
  c.nontrivial();
  c.label("section with " + std::to_string(w.size()) + " vertices");
  CheckPoly(got, true, "section");
  PBT_CHECK(SameHalfSpace(ToPl(got.plane()), h), "plane of the section is " << ToPl(got.plane()));
  PBT_CHECK(Canon(FromPoly(got)) == Canon(w), "section is " << FromPoly(got) << " instead of " << w);
}

void Walls(pbt::Src& s, pbt::Ctx& c, const B& b) {
  auto walls = b.box.GetWalls();
  int flat = 0, fd = -1;
  for (int i = 0; i < 3; ++i) if (b.lo[i] == b.hi[i]) { ++flat; fd = i; }
  size_t want = flat == 0 ? 6 : (flat == 1 ? 2 : 0);
  PBT_CHECK(walls.size() == want, walls.size() << " walls instead of " << want);
  if (flat) c.label("flat box");
  c.nontrivial();
  Mesh m;
  for (const auto& p : walls) {
    CheckPoly(p, true, "wall");
    m.push_back(FromPoly(p));
  }
  Mesh ref = Box(b.lo, b.hi);
  std::set<Loop> a, r;
  for (const Loop& l : m) a.insert(Canon(l));
  for (const Loop& l : ref) if (!AreaVec(l).IsZero()) r.insert(Canon(l));
  PBT_CHECK(a == r, "walls are\n" << Show(m));
}

// The box of a polygon is tightest for its denominator, which is the greatest
// of the extreme vertices.
void CheckTight(pbt::Ctx& c, const AABBConvexPolygon<>& p, const char* what) {
  CheckBox(p, what);
  Z big = 0;
  Q den(ToZ(p.aabb().denom()));
  for (int d = 0; d < 3; ++d) {
    for (const HomoPoint3* v : {&p.min_vertex(d), &p.max_vertex(d)}) {
      Z w = abs(ToZ(v->w()));
      if (w > big) big = w;
      Q x = ToP(*v)[d] * den;
      if (x.get_den() != 1) { c.label("rounded bound"); c.nontrivial(); }
    }
    PBT_CHECK(p.min_vertex(d) == p.vertex(p.min_vertex_index(d)) && p.max_vertex(d) == p.vertex(p.max_vertex_index(d)), what << ": extreme vertices of dimension " << d);
  }
  PBT_CHECK(Q(big) == den, what << ": denominator " << den << " is not the greatest of the extreme vertices, " << big);
  for (size_t i = 0; i < p.vertex_count(); ++i) PBT_CHECK(p.aabb().IsInside(p.vertex(i)), what << ": vertex " << ToP(p.vertex(i)) << " is outside of the box");
}

void OfPolygon(pbt::Src& s, pbt::Ctx& c) {
  Loop l = GenConvex(s, 16, s.chance(1, 4));
  RepStyle st = GenRepStyle(s);
  auto p = MakePoly<walnut::MutableConvexPolygon<>>(s, l, st);
  AABBConvexPolygon<> bp(p);
  if (s.flip()) {
    size_t k = s.draw(l.size());
    bp.RotateEdges(k);
    std::rotate(l.begin(), l.begin() + k, l.end());
  }
  if (s.chance(1, 4)) { bp.SortVertices(); std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end()); }
  PBT_CHECK(FromPoly(bp) == l, "vertices of the polygon with box");
  c << "polygon " << l << "\n";
  CheckTight(c, bp, "polygon");
  // Pieces of it, and pieces put together again.
  std::vector<AABBConvexPolygon<>> pieces{bp};
  for (size_t k = 0; s.more(k, 0, 6); ++k) {
    size_t at = s.draw(pieces.size());
    Loop pl = FromPoly(pieces[at]);
    Pl h = SplitPlane(s, pl);
    auto info = pieces[at].GetSplitInfo(Plane(h.n, h.d, Z(1)));
    if (!info.ShouldEmitNegativeChild() || !info.ShouldEmitPositiveChild()) continue;
    c << "split of piece " << at << " by " << h << "\n";
    c.label("split");
    auto ch = std::move(pieces[at]).CreateSplitChildren(std::move(info));
    CheckTight(c, ch.first, "negative piece");
    CheckTight(c, ch.second, "positive piece");
    if (s.chance(1, 3)) {
      auto &a = ch.first, &b = ch.second;
      bool done = false;
      for (size_t i = 0; i < a.vertex_count() && !done; ++i) {
        for (size_t j = 0; j < b.vertex_count() && !done; ++j) {
          if (a.vertex(i) != b.vertex((j + 1) % b.vertex_count()) || b.vertex(j) != a.vertex((i + 1) % a.vertex_count())) continue;
          int dim = 0;
          const AABBConvexPolygon<>& ca = a;
          while (ca.edge(i).line().d().components()[dim].IsZero()) ++dim;
          done = a.TryMergePolygon(dim, i, b, j);
          // Only one edge is common.
          i = a.vertex_count();
          break;
        }
      }
      if (done) {
        c.label("merged");
        CheckTight(c, a, "merged piece");
        pieces[at] = std::move(a);
        continue;
      }
    }
    pieces[at] = std::move(ch.first);
    pieces.push_back(std::move(ch.second));
  }
}

void Rational(pbt::Src& s, pbt::Ctx& c) {
  Z n = GenZ(s, 3), od = GenZ(s, 2), nd = GenZ(s, 2);
  if (s.flip()) n = od * Z(s.range(-3, 3)) + Z(s.range(-1, 1));
  if (od == 0) od = 1;
  if (nd == 0) nd = 1;
  c << n << "/" << od << " -> /" << nd << "\n";
  Q v = Frac(n, od);
  Z up = ToZ(walnut::rational::RoundUp(FromZ(n), FromZ(od), FromZ(nd)));
  Z dn = ToZ(walnut::rational::RoundDown(FromZ(n), FromZ(od), FromZ(nd)));
  Q step = abs(Frac(Z(1), nd));
  Q u = Frac(up, nd), d = Frac(dn, nd);
  PBT_CHECK(u >= v && u - step < v, "RoundUp of " << n << "/" << od << " to /" << nd << " is " << up);
  PBT_CHECK(d <= v && d + step > v, "RoundDown of " << n << "/" << od << " to /" << nd << " is " << dn);
  if (u == v) c.label("exact");
  c.nontrivial();
  Z n2 = GenZ(s, 3), d2 = GenZ(s, 2);
  if (d2 == 0) d2 = -1;
  if (s.chance(1, 3)) { Z k = GenScale(s); n2 = n * k; d2 = od * k; c.label("equal fractions"); }
  Q w = Frac(n2, d2);
  PBT_CHECK(walnut::rational::IsLessThan(FromZ(n), FromZ(od), FromZ(n2), FromZ(d2)) == (v < w), "IsLessThan(" << n << "/" << od << ", " << n2 << "/" << d2 << ")");
  PBT_CHECK(walnut::rational::Equals(FromZ(n), FromZ(od), FromZ(n2), FromZ(d2)) == (v == w), "Equals(" << n << "/" << od << ", " << n2 << "/" << d2 << ")");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  int kind = s.draw(8);
  if (kind == 0) return Rational(s, c);
  if (kind == 1 || kind == 2) return OfPolygon(s, c);
  B b = GenB(s);
  c << "box " << b.lo << " " << b.hi << " / " << b.den << "\n";
  if (kind == 3 || kind == 4) Predicates(s, c, b);
  else if (kind == 5) Walls(s, c, b);
  else Planes(s, c, b);
}

}  // namespace

PBT_MAIN((pbt::Property{"P05", "a point on the border, a plane that cuts the box or touches a corner, a rounded bound, or a wall list", Run, 20}))
