// G01: geometric predicates are exact and independent of representation.
#include "geo.h"
#include "walnut/r_transformation.h"

using namespace gen;

namespace {

int S(const walnut::BigIntWord& w) { return w > 0 ? 1 : (w < 0 ? -1 : 0); }
// A tie or another degenerate relation makes the case non-trivial.
void Tie(pbt::Ctx& c, const char* name) {
  c.label(name);
  c.nontrivial();
}
int S(int v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }

Vector3 RandV(pbt::Src& s, const std::vector<Vector3>& old) {
  if (!old.empty() && s.draw(3) == 0) {
    const Vector3& o = s.pick(old);
    Z k = GenScale(s);
    Vector3 v(FromZ(ToZ(o.x()) * k), FromZ(ToZ(o.y()) * k), FromZ(ToZ(o.z()) * k));
    if (s.draw(3) == 0) v.components()[s.draw(3)] += BigInt(1);
    return v;
  }
  return IntV(GenIntPoint(s));
}

HalfSpace3 RandPlane(pbt::Src& s, const std::vector<P3>& pts) {
  // The oracle builds the plane, not the library.
  P3 n;
  Q d;
  if (s.flip()) {
    const P3& a = s.pick(pts);
    const P3& b = s.pick(pts);
    const P3& c = s.pick(pts);
    n = Cross(b - a, c - a);
    d = Dot(n, a);
  } else {
    n = GenIntPoint(s);
    if (s.draw(4) == 0) {
      n = P3();
      n[s.draw(3)] = s.flip() ? 1 : -1;
    }
    d = s.flip() ? Q(GenCoord(s)) : Dot(n, s.pick(pts));
  }
  if (n.IsZero()) { n = P3(0, 0, 1); d = s.pick(pts)[2]; }
  return Plane(n, d, GenScale(s, false));
}

void PointPlane(pbt::Src& s, pbt::Ctx& c) {
  std::vector<P3> pts = GenConfig(s, 4, false);
  HalfSpace3 h = RandPlane(s, pts);
  Pl pl = ToPl(h);
  for (const P3& p : pts) {
    int want = pl.Side(p);
    c << "plane " << pl << " point " << p << " side " << want << "\n";
    if (want == 0) Tie(c, "point on plane");
    for (int k = 0; k < 2; ++k) {
      HomoPoint3 hp = Homo(p, GenScale(s));
      int got = S(h.Compare(hp));
      PBT_CHECK(got == want, "HalfSpace3::Compare of " << p << " against " << pl << " gives " << got << ", exact sign is " << want << " (w=" << ToZ(hp.w()) << ")");
      PBT_CHECK(h.IsCoincident(hp) == (want == 0), "IsCoincident of " << p << " and " << pl);
    }
    if (IsInt(p)) {
      PBT_CHECK(S(h.Compare(IntP(p))) == want, "HalfSpace3::Compare(Point3) of " << p << " against " << pl);
      PBT_CHECK(h.IsCoincident(IntP(p)) == (want == 0), "IsCoincident(Point3) of " << p << " and " << pl);
    }
    HalfSpace3 neg = -h;
    PBT_CHECK(S(neg.Compare(Homo(p, GenScale(s)))) == -want, "the opposite half-space must give the opposite side");
  }
}

void PointLine2(pbt::Src& s, pbt::Ctx& c) {
  std::vector<P3> pts = GenConfig(s, 3, false);
  for (auto& p : pts) p[2] = 0;
  Z nx = GenCoord(s), ny = GenCoord(s), d = GenCoord(s);
  if (s.flip()) {
    P3 dir = pts[1] - pts[0];
    Z l = CommonDen(dir);
    Q ql(l);
    dir = dir * ql;
    nx = -dir[1].get_num();
    ny = dir[0].get_num();
  }
  if (nx == 0 && ny == 0) nx = 1;
  Q dd(d);
  if (s.flip()) dd = Q(nx) * pts[0][0] + Q(ny) * pts[0][1];
  Z k = dd.get_den() * GenScale(s, false);
  Q qd = dd * Q(k);
  HalfSpace2 h(FromZ(nx * k), FromZ(ny * k), FromZ(qd.get_num()));
  for (const P3& p : pts) {
    Q e = Q(nx) * p[0] + Q(ny) * p[1] - dd;
    int want = sgn(e);
    c << "line " << nx << "," << ny << " = " << dd << " point " << p << "\n";
    if (want == 0) Tie(c, "point on line");
    HomoPoint2 hp = Homo2(p, GenScale(s));
    PBT_CHECK(S(h.Compare(hp)) == want, "HalfSpace2::Compare of " << p << " gives " << h.Compare(hp) << ", exact sign " << want);
    PBT_CHECK(h.IsCoincident(hp) == (want == 0), "HalfSpace2::IsCoincident of " << p);
    PBT_CHECK(S((-h).Compare(hp)) == -want, "negated half-plane");
    if (p[0].get_den() == 1 && p[1].get_den() == 1) {
      Point2 ip(FromZ(p[0].get_num()), FromZ(p[1].get_num()));
      PBT_CHECK(S(h.Compare(ip)) == want, "HalfSpace2::Compare(Point2) of " << p);
      PBT_CHECK(h.IsCoincident(ip) == (want == 0), "HalfSpace2::IsCoincident(Point2) of " << p);
    }
  }
}

void Twist(pbt::Src& s, pbt::Ctx& c) {
  bool integer = s.flip();
  std::vector<P3> p = GenConfig(s, 3, integer);
  for (int drop = 0; drop < 3; ++drop) {
    int want = sgn(Cross2(p[0] - p[1], p[2] - p[1], drop));
    HomoPoint3 h[3] = {Homo(p[0], GenScale(s)), Homo(p[1], GenScale(s)), Homo(p[2], GenScale(s))};
    c << "twist drop " << drop << " " << p[0] << p[1] << p[2] << " = " << want << "\n";
    if (want == 0) Tie(c, "collinear twist");
    if ((h[0].w() < 0) != (h[2].w() < 0)) Tie(c, "twist opposite denominators");
    int got = S(h[1].Get2DTwistDir(drop, h[0], h[2]));
    PBT_CHECK(got == want, "Get2DTwistDir(" << drop << ") of " << p[0] << " " << p[1] << " " << p[2] << " gives " << got << ", exact " << want << " (denominators " << ToZ(h[0].w()) << " " << ToZ(h[1].w()) << " " << ToZ(h[2].w()) << ")");
    PBT_CHECK(h[1].Get2DTwistDirReduced(drop, h[0], h[2]) == want, "Get2DTwistDirReduced differs from the exact sign " << want);
    if (integer) {
      Point3 q[3] = {IntP(p[0]), IntP(p[1]), IntP(p[2])};
      PBT_CHECK(S(q[1].Get2DTwistDir(drop, q[0], q[2])) == want, "Point3::Get2DTwistDir of " << p[0] << p[1] << p[2]);
      PBT_CHECK(q[1].Get2DTwistDirReduced(drop, q[0], q[2]) == want, "Point3::Get2DTwistDirReduced of " << p[0] << p[1] << p[2]);
      Point2 a = q[0].DropDimension(drop), b = q[1].DropDimension(drop), e = q[2].DropDimension(drop);
      PBT_CHECK(S(b.GetTwistDir(a, e)) == want, "Point2::GetTwistDir of " << p[0] << p[1] << p[2]);
    }
  }
}

int Lex(const P3& a, const P3& b, bool reverse) {
  for (int i = 0; i < 3; ++i) {
    int j = reverse ? 2 - i : i;
    if (a[j] != b[j]) return a[j] < b[j] ? -1 : 1;
  }
  return 0;
}

void PointCompare(pbt::Src& s, pbt::Ctx& c) {
  bool integer = s.draw(3) == 0;
  std::vector<P3> p = GenConfig(s, 2, integer);
  HomoPoint3 a = Homo(p[0], GenScale(s)), b = Homo(p[1], GenScale(s));
  c << "compare " << p[0] << " " << p[1] << "\n";
  if (p[0] == p[1]) Tie(c, "equal points");
  int lex = Lex(p[0], p[1], false), top = Lex(p[0], p[1], true);
  PBT_CHECK(a.LexicographicallyLt(b) == (lex < 0), "LexicographicallyLt(" << p[0] << ", " << p[1] << ")");
  PBT_CHECK(HomoPoint3::TopnessLt(a, b) == (top < 0), "TopnessLt(" << p[0] << ", " << p[1] << ")");
  PBT_CHECK((a == b) == (p[0] == p[1]), "operator== of " << p[0] << ", " << p[1]);
  PBT_CHECK((a != b) == (p[0] != p[1]), "operator!= of " << p[0] << ", " << p[1]);
  for (size_t i = 0; i < 3; ++i) {
    int want = cmp(p[0][i], p[1][i]);
    want = S(want);
    PBT_CHECK(S(a.CompareComponent(i, b)) == want, "CompareComponent(" << i << ") of " << p[0] << " and " << p[1] << " gives " << a.CompareComponent(i, b));
    PBT_CHECK(a.IsLessThanComponent(i, b) == (want < 0), "IsLessThanComponent(" << i << ") of " << p[0] << " and " << p[1]);
    PBT_CHECK(a.IsEquivalentComponent(i, b) == (want == 0), "IsEquivalentComponent(" << i << ") of " << p[0] << " and " << p[1]);
  }
  HomoPoint2 a2 = a.DropDimension(2), b2 = b.DropDimension(2);
  bool eq2 = p[0][0] == p[1][0] && p[0][1] == p[1][1];
  int lex2 = p[0][0] != p[1][0] ? (p[0][0] < p[1][0] ? -1 : 1) : S(cmp(p[0][1], p[1][1]));
  PBT_CHECK((a2 == b2) == eq2 && (a2 != b2) == !eq2, "HomoPoint2 equality of " << p[0] << ", " << p[1]);
  PBT_CHECK(HomoPoint2::LexicographicallyLt(a2, b2) == (lex2 < 0), "HomoPoint2::LexicographicallyLt of " << p[0] << ", " << p[1]);
  if (IsInt(p[1])) {
    Point3 q = IntP(p[1]);
    PBT_CHECK((a == q) == (p[0] == p[1]) && (q == a) == (p[0] == p[1]) && (a != q) == (p[0] != p[1]), "equality with a Point3: " << p[0] << ", " << p[1]);
    Point2 q2(q.x(), q.y());
    PBT_CHECK((a2 == q2) == eq2 && (q2 == a2) == eq2 && (a2 != q2) == !eq2, "equality with a Point2: " << p[0] << ", " << p[1]);
    if (IsInt(p[0])) {
      Point3 r = IntP(p[0]);
      PBT_CHECK((r == q) == (p[0] == p[1]) && (r != q) == (p[0] != p[1]), "Point3 equality: " << p[0] << ", " << p[1]);
      PBT_CHECK(r.LexicographicallyLt(q) == (lex < 0), "Point3::LexicographicallyLt: " << p[0] << ", " << p[1]);
      PBT_CHECK((Point2(r.x(), r.y()) == q2) == eq2, "Point2 equality: " << p[0] << ", " << p[1]);
      for (size_t i = 0; i < 3; ++i) {
        PBT_CHECK(S(r.CompareComponent(i, q)) == S(cmp(p[0][i], p[1][i])), "Point3::CompareComponent");
        PBT_CHECK(r.IsEquivalentComponent(i, q) == (p[0][i] == p[1][i]), "Point3::IsEquivalentComponent");
      }
    }
  }
}

void Vectors(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Vector3> v;
  for (int i = 0; i < 2; ++i) v.push_back(RandV(s, v));
  P3 a = ToP(v[0]), b = ToP(v[1]);
  c << "vectors " << a << " " << b << "\n";
  PBT_CHECK(Q(ToZ(v[0].Dot(v[1]))) == Dot(a, b), "Dot of " << a << " and " << b);
  PBT_CHECK(ToP(v[0].Cross(v[1])) == Cross(a, b), "Cross of " << a << " and " << b << " gives " << ToP(v[0].Cross(v[1])));
  PBT_CHECK(ToP(v[0] + v[1]) == a + b && ToP(v[0] - v[1]) == a - b, "sum or difference of " << a << " and " << b);
  PBT_CHECK(ToP(v[0].Hadamard(v[1])) == P3(a[0] * b[0], a[1] * b[1], a[2] * b[2]), "Hadamard of " << a << " and " << b);
  PBT_CHECK(Q(ToZ(v[0].GetScaleSquared())) == Dot(a, a), "GetScaleSquared of " << a);
  PBT_CHECK(v[0].IsZero() == a.IsZero(), "IsZero of " << a);
  PBT_CHECK((v[0] == v[1]) == (a == b) && (v[0] != v[1]) == (a != b), "vector equality");
  int first = a[0] != 0 ? 0 : a[1] != 0 ? 1 : a[2] != 0 ? 2 : -1;
  PBT_CHECK(v[0].GetFirstNonzeroDimension() == first, "GetFirstNonzeroDimension of " << a);
  PBT_CHECK(ToP(-v[0]) == -a, "negation of " << a);
  if (!a.IsZero() && !b.IsZero()) {
    bool same = SameDir(a, b), par = Parallel(a, b);
    if (par) Tie(c, same ? "same direction" : "opposite direction");
    PBT_CHECK(v[0].IsSameDir(v[1]) == same, "Vector3::IsSameDir(" << a << ", " << b << ")");
    PBT_CHECK(v[0].IsSameOrOppositeDir(v[1]) == par, "Vector3::IsSameOrOppositeDir(" << a << ", " << b << ")");
  }
  for (int drop = 0; drop < 3; ++drop) {
    Vector2 p = v[0].DropDimension(drop), q = v[1].DropDimension(drop);
    Z px = ToZ(p.x()), py = ToZ(p.y()), qx = ToZ(q.x()), qy = ToZ(q.y());
    PBT_CHECK(Q(px) == a[(drop + 1) % 3] && Q(py) == a[(drop + 2) % 3], "DropDimension(" << drop << ") of " << a);
    Z cr = px * qy - py * qx, dt = px * qx + py * qy;
    PBT_CHECK(ToZ(p.Cross(q)) == cr && ToZ(p.Dot(q)) == dt, "2D cross or dot of " << a << " and " << b);
    bool pz = px == 0 && py == 0, qz = qx == 0 && qy == 0;
    PBT_CHECK(p.IsZero() == pz, "Vector2::IsZero");
    if (pz || qz) continue;
    PBT_CHECK(p.IsSameDir(q) == (cr == 0 && dt > 0), "Vector2::IsSameDir of (" << px << "," << py << ") and (" << qx << "," << qy << ")");
    PBT_CHECK(p.IsSameOrOppositeDir(q) == (cr == 0), "Vector2::IsSameOrOppositeDir of (" << px << "," << py << ") and (" << qx << "," << qy << ")");
    // Angle in [0, 2 pi) by half plane then cross product.
    auto half = [](const Z& x, const Z& y) { return (y > 0 || (y == 0 && x > 0)) ? 0 : 1; };
    int hp = half(px, py), hq = half(qx, qy);
    bool rot = hp != hq ? hp < hq : cr > 0;
    PBT_CHECK(p.IsRotationLessThan(q) == rot, "IsRotationLessThan of (" << px << "," << py << ") and (" << qx << "," << qy << ") must be " << rot);
    Z cn = (hp ? -1 : 1) * (hq ? -1 : 1) * cr;
    PBT_CHECK(p.IsHalfRotationLessThan(q) == (cn > 0), "IsHalfRotationLessThan of (" << px << "," << py << ") and (" << qx << "," << qy << ") must be " << (cn > 0));
  }
}

void Lines(pbt::Src& s, pbt::Ctx& c) {
  std::vector<P3> p = GenConfig(s, 5, false);
  if (p[0] == p[1]) p[1][s.draw(3)] += 1;
  P3 d = p[1] - p[0];
  auto make = [&](const P3& a, const P3& b) {
    P3 dir = b - a, m = Cross(a, b);
    Z l = CommonDen(dir), lm = CommonDen(m);
    mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), lm.get_mpz_t());
    l *= GenScale(s, false);
    Q k(l);
    return PluckerLine(IntV(dir * k), IntV(m * k));
  };
  PluckerLine line = make(p[0], p[1]);
  c << "line " << p[0] << " to " << p[1] << "\n";
  for (size_t i = 2; i < p.size(); ++i) {
    bool on = Cross(p[i] - p[0], d).IsZero();
    if (on) Tie(c, "point on 3D line");
    PBT_CHECK(line.IsCoincident(Homo(p[i], GenScale(s))) == on, "PluckerLine::IsCoincident(HomoPoint3) of " << p[i] << " must be " << on);
    if (IsInt(p[i])) PBT_CHECK(line.IsCoincident(IntP(p[i])) == on, "PluckerLine::IsCoincident(Point3) of " << p[i] << " must be " << on);
  }
  // Planes containing the line or parallel to it.
  P3 n;
  switch (s.draw(3)) {
    case 0: n = Cross(d, p[2] - p[0]); break;
    case 1: n = Cross(d, GenIntPoint(s)); break;
    default: n = GenIntPoint(s); break;
  }
  if (!n.IsZero()) {
    Q dist = Dot(n, s.pick(p));
    if (s.draw(4) == 0) dist = 0;
    HalfSpace3 h = Plane(n, dist, GenScale(s, false));
    bool on = Dot(n, p[0]) == dist && Dot(n, p[1]) == dist;
    if (on) Tie(c, "line on plane");
    PBT_CHECK(line.IsCoincident(h) == on, "PluckerLine::IsCoincident(plane " << n << "=" << dist << ") must be " << on);
  }
  if (p[3] != p[4]) {
    PluckerLine other = make(p[3], p[4]);
    bool same = SameDir(p[4] - p[3], d) && Cross(p[3] - p[0], d).IsZero();
    if (same) Tie(c, "same line");
    PBT_CHECK((line == other) == same && (line != other) == !same, "line equality with " << p[3] << " to " << p[4] << " must be " << same);
  }
  Q t = GenRat(s);
  P3 q = p[0] + d * t;
  if (q != p[0]) {
    bool fwd = t > 0;
    PluckerLine other = make(p[0], q);
    PBT_CHECK((line == other) == fwd, "line equality through the same points, forward = " << fwd);
    PBT_CHECK((-line == other) == !fwd, "negated line equality, forward = " << fwd);
  }
}

void Planes(pbt::Src& s, pbt::Ctx& c) {
  std::vector<P3> pts = GenConfig(s, 3, false);
  HalfSpace3 a = RandPlane(s, pts);
  HalfSpace3 b = RandPlane(s, pts);
  Pl pa = ToPl(a);
  int mode = s.draw(4);
  if (mode == 1 || mode == 2) {
    // Same normal direction, maybe a different distance.
    Q k(GenScale(s, true));
    Q d = mode == 1 ? pa.d : Q(GenCoord(s));
    P3 n = pa.n * k;
    b = Plane(n, d * k, 1);
  }
  Pl pb = ToPl(b);
  c << "planes " << pa << " | " << pb << "\n";
  bool same = SameHalfSpace(pa, pb);
  Pl nb{-pb.n, -pb.d};
  bool opp = SameHalfSpace(pa, nb);
  if (same) Tie(c, "same half-space");
  if (opp) Tie(c, "opposite half-space");
  PBT_CHECK((a == b) == same && (a != b) == !same, "HalfSpace3 equality of " << pa << " and " << pb << " must be " << same);
  PBT_CHECK(a.IsSameOrOpposite(b) == (same || opp), "IsSameOrOpposite of " << pa << " and " << pb);
  if (Parallel(pa.n, pb.n)) {
    int dim = -1;
    for (int i = 0; i < 3; ++i) {
      if (pa.n[i] != 0 && (dim < 0 || s.flip())) dim = i;
    }
    // A point of plane b.
    Q t = pb.d / Dot(pb.n, pb.n);
    P3 q = pb.n * t;
    // The header comment and the repository's test state opposite signs; the
    // tested behaviour is taken as the contract: <0 when b is on a's positive
    // side (a's offset along a's normal is the smaller one).
    int want = -pa.Side(q);
    Tie(c, "parallel planes");
    PBT_CHECK(S(a.Compare(b, dim)) == want, "HalfSpace3::Compare(plane) of " << pa << " and " << pb << " gives " << a.Compare(b, dim) << ", exact " << want);
  }
  // 2D.
  Z k = GenScale(s);
  HalfSpace2 h(FromZ(pa.n[0].get_num()), FromZ(pa.n[1].get_num()), FromZ(pa.d.get_num()));
  HalfSpace2 g(FromZ(pb.n[0].get_num()), FromZ(pb.n[1].get_num()), FromZ(pb.d.get_num()));
  P3 hv(pa.n[0], pa.n[1], 0), gv(pb.n[0], pb.n[1], 0);
  Q hd = pa.d, gd = pb.d;
  if (s.flip()) {
    Z kd = k;
    g = HalfSpace2(FromZ(pa.n[0].get_num() * k), FromZ(pa.n[1].get_num() * k), FromZ(pa.d.get_num() * kd));
    gv = hv * Q(k);
    gd = hd * Q(k);
  }
  if (!hv.IsZero() && !gv.IsZero()) {
    int i = hv[0] != 0 ? 0 : 1;
    bool line = Parallel(hv, gv) && hd * gv[i] == gd * hv[i];
    bool eq = line && Dot(hv, gv) > 0;
    PBT_CHECK((h == g) == eq && (h != g) == !eq, "HalfSpace2 equality of " << hv << "=" << hd << " and " << gv << "=" << gd << " must be " << eq);
    PBT_CHECK(h.HasSameLine(g) == line, "HalfSpace2::HasSameLine of " << hv << "=" << hd << " and " << gv << "=" << gd << " must be " << line);
  }
}

void RTransformed(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Vector3> v;
  for (int i = 0; i < 2; ++i) v.push_back(RandV(s, v));
  P3 a = ToP(v[0]), b = ToP(v[1]);
  // Normals of planes under z' = z + eps*y + eps^2*x for a tiny eps.
  size_t bits = 8;
  for (int i = 0; i < 3; ++i) {
    bits += mpz_sizeinbase(a[i].get_num().get_mpz_t(), 2) + mpz_sizeinbase(b[i].get_num().get_mpz_t(), 2);
  }
  Q e = Frac(1, Pow2(2 * bits));
  auto tr = [&](const P3& n) { return P3(n[0] - e * e * n[2], n[1] - e * n[2], n[2]); };
  P3 ta = tr(a), tb = tr(b);
  int want = sgn(Q(ta[0] * tb[1] - ta[1] * tb[0]));
  c << "R transformed " << a << " " << b << " = " << want << "\n";
  PBT_CHECK(S(walnut::RXYCompareBivector(v[0], v[1])) == want, "RXYCompareBivector(" << a << ", " << b << ") must be " << want);
  HalfSpace3 h(v[1], BigInt(0));
  walnut::SplitSide side;
  side.split = &h;
  side.pos_side = s.flip();
  PBT_CHECK(S(walnut::RXYCompareBivector(v[0], side)) == (side.pos_side ? -want : want), "RXYCompareBivector with a split side of " << a << ", " << b);
  // The order of points after the transformation is the reverse lexicographic one.
  std::vector<P3> p = GenConfig(s, 2, false);
  Z inv = Pow2(700);
  P3 r0 = ToP(walnut::RTransform(Homo(p[0], GenScale(s)), FromZ(inv)));
  P3 r1 = ToP(walnut::RTransform(Homo(p[1], GenScale(s)), FromZ(inv)));
  Q ie = Frac(1, inv);
  P3 w0(p[0][0], p[0][1], p[0][2] + ie * p[0][1] + ie * ie * p[0][0]);
  PBT_CHECK(r0 == w0, "RTransform of " << p[0]);
  int top = Lex(p[0], p[1], true);
  PBT_CHECK(S(cmp(r0[2], r1[2])) == top, "order after RTransform of " << p[0] << " and " << p[1]);
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  int k = s.draw(8);
  switch (k) {
    case 0: c.label("point/plane"); PointPlane(s, c); break;
    case 1: c.label("point/line 2D"); PointLine2(s, c); break;
    case 2: c.label("twist"); Twist(s, c); break;
    case 3: c.label("point/point"); PointCompare(s, c); break;
    case 4: c.label("vectors"); Vectors(s, c); break;
    case 5: c.label("lines"); Lines(s, c); break;
    case 6: c.label("planes"); Planes(s, c); break;
    default: c.label("R transformation"); RTransformed(s, c); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"G01", "the configuration is degenerate for a predicate it evaluates: points coincide, are collinear or on the plane, lines or planes coincide or are parallel, or twist denominators have opposite signs", Run, 5.0}))
