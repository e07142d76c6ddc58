// G02: constructed planes, lines and points satisfy their defining incidences.
#include "geo.h"

using namespace gen;

namespace {

int S(int v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }
void Tie(pbt::Ctx& c, const char* name) {
  c.label(name);
  c.nontrivial();
}

struct Line { P3 d, m; };
Line ToL(const PluckerLine& l) { return Line{ToP(l.d()), ToP(l.m())}; }
// Exactly the directed line through a and b?
void CheckLine(const PluckerLine& l, const P3& a, const P3& dir, const std::string& what) {
  Line g = ToL(l);
  PBT_CHECK(SameDir(g.d, dir), what << ": direction " << g.d << " instead of " << dir);
  PBT_CHECK(g.m == Cross(a, g.d), what << ": moment " << g.m << " does not fit point " << a << " and direction " << g.d);
}
void CheckPlane(const HalfSpace3& h, const P3& a, const P3& n, const std::string& what) {
  Pl g = ToPl(h);
  PBT_CHECK(SameDir(g.n, n), what << ": normal " << g.n << " instead of " << n);
  PBT_CHECK(g.d == Dot(g.n, a), what << ": plane " << g << " does not contain " << a);
}

void FromPoints(pbt::Src& s, pbt::Ctx& c) {
  bool integer = s.draw(3) == 0;
  std::vector<P3> p = GenConfig(s, 3, integer);
  HomoPoint3 h[3] = {Homo(p[0], GenScale(s)), Homo(p[1], GenScale(s)), Homo(p[2], GenScale(s))};
  P3 n = Cross(p[2] - p[1], p[0] - p[1]);
  c << "points " << p[0] << p[1] << p[2] << "\n";
  HalfSpace3 pl(h[0], h[1], h[2]);
  PBT_CHECK(pl.IsValid() == !n.IsZero(), "plane through " << p[0] << p[1] << p[2] << " valid = " << pl.IsValid());
  if (n.IsZero()) Tie(c, "collinear");
  for (auto& x : h) {
    if (x.w() < 0) Tie(c, "negative denominator");
    PBT_CHECK(pl.IsCoincident(x), "the plane does not report its own point as coincident");
  }
  if (!n.IsZero()) {
    CheckPlane(pl, p[0], n, "plane through three points");
    HalfSpace3 red(pl);
    red.Reduce();
    PBT_CHECK(SameHalfSpace(ToPl(red), ToPl(pl)), "HalfSpace3::Reduce changes the half-space");
    Pl r = ToPl(red);
    Z g;
    mpz_gcd(g.get_mpz_t(), r.n[0].get_num().get_mpz_t(), r.n[1].get_num().get_mpz_t());
    mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), r.n[2].get_num().get_mpz_t());
    mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), r.d.get_num().get_mpz_t());
    PBT_CHECK(g == 1, "HalfSpace3::Reduce left the common factor " << g);
    HalfSpace3 neg(pl);
    neg.Negate();
    CheckPlane(neg, p[0], -n, "negated plane");
    CheckPlane(-pl, p[1], -n, "opposite plane");
    // Same plane from normal and point.
    HalfSpace3 via(pl.normal(), h[2]);
    CheckPlane(via, p[2], n, "plane from normal and point");
  }
  if (integer) {
    HalfSpace3 ip(IntP(p[0]), IntP(p[1]), IntP(p[2]));
    PBT_CHECK(ip.IsValid() == !n.IsZero(), "plane through integer points valid = " << ip.IsValid());
    if (!n.IsZero()) CheckPlane(ip, p[0], n, "plane through three integer points");
  }
  // Lines.
  PluckerLine l(h[0], h[1]);
  P3 d = p[1] - p[0];
  PBT_CHECK(l.IsValid() == !d.IsZero(), "line through " << p[0] << p[1] << " valid = " << l.IsValid());
  if (d.IsZero()) { Tie(c, "coincident points"); return; }
  CheckLine(l, p[0], d, "line through two points");
  PBT_CHECK(l.IsCoincident(h[0]) && l.IsCoincident(h[1]), "the line does not report its own points as coincident");
  CheckLine(-l, p[0], -d, "opposite line");
  PluckerLine neg(l);
  neg.Negate();
  CheckLine(neg, p[0], -d, "negated line");
  PluckerLine red(l);
  red.Reduce();
  CheckLine(red, p[1], d, "reduced line");
  if (integer) CheckLine(PluckerLine(IntP(p[0]), IntP(p[1])), p[0], d, "line through two integer points");
  if (!n.IsZero()) PBT_CHECK(l.IsCoincident(pl), "the line of two of the points is not on the plane of the three points");
  // Projection: the positive side is counter-clockwise of the direction.
  for (int drop = 0; drop < 3; ++drop) {
    HalfSpace2 h2 = l.Project2D(drop);
    int i = (drop + 1) % 3, j = (drop + 2) % 3;
    bool valid = d[i] != 0 || d[j] != 0;
    PBT_CHECK(h2.IsValid() == valid, "Project2D(" << drop << ") valid = " << h2.IsValid());
    if (!valid) continue;
    PBT_CHECK(h2.IsCoincident(h[0].DropDimension(drop)) && h2.IsCoincident(h[1].DropDimension(drop)), "Project2D(" << drop << ") does not contain the projected points");
    int want = sgn(Cross2(d, p[2] - p[0], drop));
    PBT_CHECK(S(h2.Compare(h[2].DropDimension(drop))) == want, "Project2D(" << drop << ") of the line " << p[0] << p[1] << " puts " << p[2] << " on side " << h2.Compare(h[2].DropDimension(drop)) << ", exact " << want);
  }
}

void Planes(pbt::Src& s, pbt::Ctx& c) {
  std::vector<P3> p = GenConfig(s, 4, false);
  std::vector<HalfSpace3> h;
  std::vector<Pl> pl;
  for (int i = 0; i < 3; ++i) {
    P3 n;
    switch (s.draw(4)) {
      case 0: n = Cross(s.pick(p) - p[0], s.pick(p) - p[1]); break;
      case 1: if (!pl.empty()) { n = s.pick(pl).n * Q(GenScale(s)); break; }  // else fall through
      case 2: n[s.draw(3)] = s.flip() ? 1 : -1; break;
      default: n = GenIntPoint(s); break;
    }
    if (n.IsZero()) n = P3(1, 0, 0);
    Q d = s.draw(3) ? Dot(n, s.pick(p)) : Q(GenCoord(s));
    h.push_back(Plane(n, d, GenScale(s, false)));
    pl.push_back(ToPl(h.back()));
  }
  c << "planes " << pl[0] << " | " << pl[1] << " | " << pl[2] << "\n";
  PluckerLine l(h[0], h[1]);
  P3 dir = Cross(pl[0].n, pl[1].n);
  PBT_CHECK(l.IsValid() == !dir.IsZero(), "line of two planes valid = " << l.IsValid());
  if (dir.IsZero()) { Tie(c, "parallel planes"); return; }
  // A point of both planes by solving the 3x3 system with the direction.
  Q dd = Dot(dir, dir);
  P3 on = (Cross(pl[1].n, dir) * pl[0].d + Cross(dir, pl[0].n) * pl[1].d) * Q(1 / dd);
  PBT_CHECK(pl[0].Side(on) == 0 && pl[1].Side(on) == 0, "oracle: point is not on both planes");
  CheckLine(l, on, dir, "line of two planes");
  PBT_CHECK(l.IsCoincident(h[0]) && l.IsCoincident(h[1]), "the line of two planes is not reported as on them");
  HomoPoint3 x = l.Intersect(h[2]);
  Q den = Dot(pl[2].n, dir);
  PBT_CHECK(x.IsValid() == (den != 0), "line/plane intersection valid = " << x.IsValid() << " for " << pl[2]);
  if (den == 0) {
    Tie(c, "plane parallel to line");
    bool inside = pl[2].Side(on) == 0;
    PBT_CHECK(l.IsCoincident(h[2]) == inside, "line on plane must be " << inside);
    if (inside) PBT_CHECK(x.vector_from_origin().IsZero(), "the intersection with a plane containing the line is the zero vector");
  } else {
    c.nontrivial();
    P3 q = ToP(x);
    for (int i = 0; i < 3; ++i) PBT_CHECK(pl[i].Side(q) == 0, "intersection point " << q << " is not on plane " << pl[i]);
    PBT_CHECK(l.IsCoincident(x), "the line does not report the intersection point as coincident");
    for (int i = 0; i < 3; ++i) PBT_CHECK(h[i].IsCoincident(x), "plane " << pl[i] << " does not report the intersection point as coincident");
    HomoPoint3 r(x);
    r.Reduce();
    PBT_CHECK(ToP(r) == q && r == x && r.w() > 0, "HomoPoint3::Reduce changes the point or leaves a negative denominator");
    Z g = ToZ(r.w());
    for (int i = 0; i < 3; ++i) {
      Z co = ToZ(r.vector_from_origin().components()[i]);
      mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), co.get_mpz_t());
    }
    PBT_CHECK(g == 1, "HomoPoint3::Reduce left the common factor " << g);
  }
  // Projecting onto a plane along an axis.
  for (int axis = 0; axis < 3; ++axis) {
    if (pl[0].n[axis] == 0) continue;
    P3 q = s.pick(p);
    HomoPoint3 hq = Homo(q, GenScale(s));
    HomoPoint2 q2 = hq.DropDimension(axis);
    HomoPoint3 pr = h[0].ProjectOntoPlane(q2, axis);
    P3 g = ToP(pr);
    PBT_CHECK(pl[0].Side(g) == 0, "ProjectOntoPlane(" << axis << ") of " << q << " gives " << g << " off the plane " << pl[0]);
    for (int i = 0; i < 3; ++i) {
      if (i != axis) PBT_CHECK(g[i] == q[i], "ProjectOntoPlane(" << axis << ") of " << q << " gives " << g);
    }
  }
}

void Other(pbt::Src& s, pbt::Ctx& c) {
  // Extruded half-planes.
  std::vector<P3> p = GenConfig(s, 3, true);
  int dim = s.draw(3);
  int i = (dim + 1) % 3, j = (dim + 2) % 3;
  Point2 a(FromZ(p[0][i].get_num()), FromZ(p[0][j].get_num()));
  Point2 b(FromZ(p[1][i].get_num()), FromZ(p[1][j].get_num()));
  HalfSpace2 h2(a, b);
  P3 d = p[1] - p[0];
  bool valid = d[i] != 0 || d[j] != 0;
  c << "2D line " << p[0] << p[1] << " without dimension " << dim << "\n";
  PBT_CHECK(h2.IsValid() == valid, "HalfSpace2 from points valid = " << h2.IsValid());
  if (valid) {
    c.nontrivial();
    PBT_CHECK(h2.IsCoincident(a) && h2.IsCoincident(b), "HalfSpace2 does not contain its points");
    int want = sgn(Cross2(d, p[2] - p[0], dim));
    Point2 e(FromZ(p[2][i].get_num()), FromZ(p[2][j].get_num()));
    PBT_CHECK(S(h2.Compare(e)) == want, "HalfSpace2 from " << p[0] << p[1] << " puts " << p[2] << " on side " << h2.Compare(e) << ", exact " << want);
    HalfSpace3 h3(h2, dim);
    // Only the two components besides `dim` are specified.
    Vector3 n3 = h3.normal();
    n3.components()[dim] = BigInt(0);
    P3 n = ToP(n3);
    PBT_CHECK(n[i] == Q(ToZ(h2.x())) && n[j] == Q(ToZ(h2.y())) && ToZ(h3.d()) == ToZ(h2.d()), "HalfSpace3 extruded from a half-plane along " << dim << " has normal " << n);
    PBT_CHECK(ToZ(h3.normal().components()[dim]) == 0, "HalfSpace3 extruded along " << dim << " is not parallel to that axis");
    PBT_CHECK(S(h3.Compare(IntP(p[2]))) == want, "extruded half-space puts " << p[2] << " on side " << h3.Compare(IntP(p[2])) << ", exact " << want);
    HalfSpace2 neg(h2);
    neg.Negate();
    PBT_CHECK(S(neg.Compare(e)) == -want, "negated half-plane");
    int k = static_cast<int>(s.range(1, 5));
    PBT_CHECK(h2 * k == h2, "a scaled half-plane is the same half-plane");
  }
  // Axis aligned.
  Z num = GenCoord(s), den = GenScale(s);
  HalfSpace3 ax = HalfSpace3::GetAxisAligned(dim, FromZ(num), FromZ(den));
  P3 q = GenPoint(s);
  if (s.draw(3) == 0) q[dim] = Frac(num, den);
  int want = sgn(Q(q[dim] - Frac(num, den))) * (den > 0 ? 1 : -1);
  PBT_CHECK(S(ax.Compare(Homo(q, GenScale(s)))) == want, "GetAxisAligned(" << dim << ", " << num << ", " << den << ") compares " << q << " wrongly");
  // Points and offsets.
  P3 r = GenPoint(s), t = GenRelated(s, {q, r}, false);
  HomoPoint3 hr = Homo(r, GenScale(s)), ht = Homo(t, GenScale(s));
  BigInt denom;
  Vector3 diff = hr.Difference(ht, denom);
  Q zd(ToZ(denom));
  PBT_CHECK(zd != 0 && ToP(diff) * Q(1 / zd) == r - t, "Difference of " << r << " and " << t);
  HomoPoint3 back = ht.AddOffset(diff, denom);
  PBT_CHECK(ToP(back) == r && back == hr, "AddOffset(Difference) of " << r << " and " << t << " gives " << ToP(back));
  for (int drop = 0; drop < 3; ++drop) {
    P3 g = ToP(hr.DropDimension(drop));
    PBT_CHECK(g[0] == r[(drop + 1) % 3] && g[1] == r[(drop + 2) % 3], "DropDimension(" << drop << ") of " << r);
    Q w(ToZ(hr.w()));
    for (int k = 0; k < 2; ++k) {
      PBT_CHECK(Q(ToZ(hr.GetComponentAfterDrop(k, drop))) == r[(drop + 1 + k) % 3] * w, "GetComponentAfterDrop");
    }
  }
  if (IsInt(q) && IsInt(r)) {
    Point3 iq = IntP(q), ir = IntP(r);
    PBT_CHECK(ToP(iq - ir) == q - r && ToP(iq + (ir - iq)) == r && ToP(iq - (iq - ir)) == r, "Point3 sums and differences of " << q << r);
    Point3 in(iq);
    in.Negate();
    PBT_CHECK(ToP(in) == -q, "Point3::Negate of " << q);
    if (!q.IsZero()) {
      Vector3 v = iq.vector_from_origin();
      v.Reduce();
      P3 g = ToP(v);
      PBT_CHECK(SameDir(g, q), "Vector3::Reduce of " << q << " gives " << g);
      Z f;
      mpz_gcd(f.get_mpz_t(), g[0].get_num().get_mpz_t(), g[1].get_num().get_mpz_t());
      mpz_gcd(f.get_mpz_t(), f.get_mpz_t(), g[2].get_num().get_mpz_t());
      PBT_CHECK(f == 1, "Vector3::Reduce of " << q << " left the factor " << f);
    }
    Vector2 v2(iq.x(), iq.y());
    Vector2 pe = v2.GetPerpendicular(), sw = v2.SwapXY();
    PBT_CHECK(Q(ToZ(pe.x())) == -q[1] && Q(ToZ(pe.y())) == q[0], "GetPerpendicular of " << q);
    PBT_CHECK(Q(ToZ(sw.x())) == q[1] && Q(ToZ(sw.y())) == q[0], "SwapXY of " << q);
  }
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(3)) {
    case 0: c.label("from points"); FromPoints(s, c); break;
    case 1: c.label("planes"); Planes(s, c); break;
    default: c.label("other constructions"); Other(s, c); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"G02", "degenerate arguments, a negative denominator, a proper intersection point, or a valid 2D construction", Run, 5.0}))
