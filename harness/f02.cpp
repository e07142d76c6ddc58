// F02: extrusion of outlines, and exact measures of meshes.
#include "boolean.h"
#include "outline.h"
#include "walnut/extrude.h"
#include "walnut/mesh.h"

using namespace gen;
using walnut::MutableConvexPolygon;

namespace {

// Winding number of a flat (z = 0) loop; false on the boundary.
bool FlatWind(const Loop& l, const P3& q, int* w) {
  *w = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    const P3 &a = l[i], &b = l[(i + 1) % l.size()];
    Q c = (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0]);
    if (c == 0 && (a[0] - q[0]) * (b[0] - q[0]) + (a[1] - q[1]) * (b[1] - q[1]) <= 0) return false;
    if (a[1] <= q[1] && b[1] > q[1] && c > 0) ++*w;
    if (a[1] > q[1] && b[1] <= q[1] && c < 0) --*w;
  }
  return true;
}

void CheckClosed(const Mesh& m) {
  Chain sum;
  for (const Loop& l : m) sum.Add(l);
  PBT_CHECK(sum.empty(), "the extruded mesh is not closed: " << sum.Show());
}

// Vector3 and denominator for an exact vector.
Vector3 Split(pbt::Src& s, const P3& d, const Z& scale, walnut::BigInt* denom) {
  Z den = CommonDen(d) * scale;
  *denom = FromZ(den);
  return IntV(d * Q(den));
}

void RunExtrude(pbt::Src& s, pbt::Ctx& c) {
  bool simple, mono;
  Loop flat = GenFlatOutline(s, &simple, &mono);
  bool planar = !s.chance(1, 6);
  if (!planar) for (P3& p : flat) if (s.chance(1, 3)) p = p + IP(0, 0, s.range(-2, 2));
  Affine f = GenAffine(s);
  int p = s.draw(3);
  auto place = [&](P3 a) { return f(P3(a[(3 - p) % 3], a[(4 - p) % 3], a[(5 - p) % 3])); };
  P3 dflat(Q(s.range(-3, 3)), Q(s.range(-3, 3)), Q(s.range(-3, 3)));
  if (s.chance(1, 3)) dflat = dflat * Q(1, 1 + s.draw(7));
  if (s.chance(1, 2)) dflat[0] = dflat[1] = 0;
  P3 dir = place(dflat) - place(IP(0, 0, 0));
  RepStyle st = GenRepStyle(s);
  Z dscale = s.flip() ? Z(1) : GenScale(s, true);
  walnut::BigInt denom;
  Vector3 direction = Split(s, dir, dscale, &denom);
  std::vector<HomoPoint3> cap;
  Loop in;
  for (const P3& a : flat) {
    in.push_back(place(a));
    cap.push_back(Homo(in.back(), st.scales ? GenScale(s, st.negative) : Z(1)));
  }
  c << "cap " << in << "\ndirection " << dir << " denominator sign " << (sgn(dscale)) << "\n";
  auto out = walnut::Extrude(cap, direction, denom);
  Mesh result;
  std::set<P3> allowed;
  for (const P3& a : in) { allowed.insert(a); allowed.insert(a + dir); }
  for (const auto& poly : out) {
    CheckPoly(poly, false, "extruded facet");
    result.push_back(FromPoly(poly));
    for (const P3& v : result.back()) PBT_CHECK(allowed.count(v), "vertex " << v << " is neither a point of the cap nor one of the moved cap");
  }
  CheckClosed(result);
  if (!planar) {
    if (!result.empty()) c.nontrivial();
    c.label("cap not planar");
    return;
  }
  Q det = f.det();
  int orient = -sgn(dflat[2]) * sgn(det);
  Q vol6 = flat.empty() ? Q(0) : Q(Q(-3) * AreaVec(flat)[2] * dflat[2] * det);
  PBT_CHECK(Volume6(result) == vol6, "6 x volume of the extruded mesh is " << Volume6(result) << ", expected " << vol6);
  if (vol6 != 0) c.nontrivial();
  if (orient == 0) c.label("direction in the plane of the cap");
  Winder rw(result);
  size_t judged = 0;
  for (int k = 0; k < 30; ++k) {
    P3 q;
    if (flat.empty()) break;
    // Around the outline's own points, all over, and on both sides of its edges.
    if (k % 3 == 0) {
      size_t i = s.draw(flat.size());
      P3 a = flat[i], b = flat[(i + 1) % flat.size()];
      Q t = Frac(Z(1 + (long)s.draw(996)), Z(997));
      q = a + (b - a) * t + P3(-(b[1] - a[1]), b[0] - a[0], 0) * Frac(Z(s.flip() ? 1 : -1), Z(100003));
    } else {
      q = P3(Frac(Z(s.range(-120000, 120000)), Z(10007)), Frac(Z(s.range(-120000, 120000)), Z(10009)), 0);
    }
    Q t = Frac(Z(s.range(-300, 1300)), Z(1001));
    int w, r;
    if (!FlatWind(flat, q, &w) || t == 0 || t == 1) continue;
    P3 at = place(q + dflat * t);
    if (!rw.Wind(at, &r)) continue;
    int want = t > 0 && t < 1 ? w * orient : 0;
    PBT_CHECK(r == want, "winding number at " << at << " is " << r << ", expected " << want << "\n" << Show(result));
    ++judged;
    if (want) c.label("inside point");
  }
}

// First moment times 24 and volume times 6, by tetrahedra from the origin.
void Moments(const Mesh& m, Q* v6, P3* m24) {
  *v6 = 0;
  *m24 = IP(0, 0, 0);
  for (const Loop& l : m) for (size_t i = 2; i < l.size(); ++i) {
    Q d = Det(l[0], l[i - 1], l[i]);
    *v6 += d;
    *m24 = *m24 + (l[0] + l[i - 1] + l[i]) * d;
  }
}

void RunMeasure(pbt::Src& s, pbt::Ctx& c) {
  Mesh m;
  size_t n = s.size(1, 2);
  std::vector<Mesh> earlier;
  for (size_t i = 0; i < n; ++i) {
    earlier.push_back(GenOperand(s, earlier));
    Append(m, earlier.back());
  }
  Affine f = GenAffine(s);
  m = f(m);
  s.shuffle(m);
  RepStyle st = GenRepStyle(s);
  auto polys = ToPolys(s, m, st);
  c << Show(m);
  // Vertices and their directions.
  auto top = walnut::GetTopPoint(polys);
  if (m.empty()) {
    PBT_CHECK(top.w().IsZero(), "top point of an empty mesh");
    PBT_CHECK(walnut::GetFarthest(polys, ToV(Z(1), Z(0), Z(0))).w().IsZero(), "farthest point of an empty mesh");
    return;
  }
  P3 best = m[0][0];
  for (const Loop& l : m) for (const P3& a : l) {
    if (std::tie(a[2], a[1], a[0]) > std::tie(best[2], best[1], best[0])) best = a;
  }
  PBT_CHECK(!top.w().IsZero() && ToP(top) == best, "top point is " << ToP(top) << ", expected " << best);
  for (int k = 0; k < 4; ++k) {
    P3 v;
    switch (s.draw(4)) {
      case 0: v = IP(s.range(-2, 2), s.range(-2, 2), s.range(-2, 2)); break;
      case 1: for (int i = 0; i < 3; ++i) v[i] = Q(GenZ(s, 2)); break;
      default: {
        // Orthogonal to a facet or its edge: ties and near ties.
        const Loop& l = s.pick(m);
        P3 a = s.flip() ? AreaVec(l) : Cross(AreaVec(l), l[1] - l[0]);
        v = a * Q(CommonDen(a));
        if (s.flip()) v = -v;
        if (s.chance(1, 3)) v[s.draw(3)] += s.flip() ? 1 : -1;
        break;
      }
    }
    HomoPoint3 far = walnut::GetFarthest(polys, IntV(v));
    PBT_CHECK(!far.w().IsZero(), "no farthest point");
    P3 fp = ToP(far);
    bool found = false;
    for (const Loop& l : m) for (const P3& a : l) {
      found = found || a == fp;
      PBT_CHECK(Dot(a, v) <= Dot(fp, v), "farthest point in direction " << v << " is " << fp << ", but " << a << " is farther");
    }
    PBT_CHECK(found, "farthest point " << fp << " is not a vertex");
  }
  Q v6;
  P3 m24;
  Moments(m, &v6, &m24);
  if (v6 == 0) return;
  HomoPoint3 g = walnut::GetCentroid(polys);
  P3 want = m24 * Q(Q(1) / (Q(4) * v6));
  PBT_CHECK(!g.w().IsZero(), "centroid with zero denominator, expected " << want);
  PBT_CHECK(ToP(g) == want, "centroid is " << ToP(g) << ", expected " << want);
  c.nontrivial();
  c.label("centroid");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  if (s.chance(2, 5)) RunMeasure(s, c); else RunExtrude(s, c);
}

}  // namespace

PBT_MAIN((pbt::Property{"F02", "the extruded or measured solid has non-zero volume (or the cap is not planar and gave facets)", Run, 30}))
