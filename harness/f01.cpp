// F01: decomposition of planar point lists into convex polygons.
#include "outline.h"

using namespace gen;
using walnut::ConvexPolygonFactory;
using walnut::MutableConvexPolygon;
using walnut::Point3WithVertexData;

namespace gen {
}

namespace {

using DataPoint = Point3WithVertexData<Tag>;

Point3 Make(const P3& p, size_t, const RepStyle&, pbt::Src&, Point3*) { return IntP(p); }
HomoPoint3 Make(const P3& p, size_t, const RepStyle& st, pbt::Src& s, HomoPoint3*) {
  return Homo(p, st.scales ? GenScale(s, st.negative) : Z(1));
}
DataPoint Make(const P3& p, size_t i, const RepStyle&, pbt::Src&, DataPoint*) {
  Point3 q = IntP(p);
  DataPoint d(q.x(), q.y(), q.z());
  d.data.id = (long)i;
  return d;
}

template <class Point, class Container>
std::vector<typename ConvexPolygonFactory<Point>::ConvexPolygonRep> Go(pbt::Src& s, pbt::Ctx& c, const Loop& in,
                                                                       const RepStyle& st, const P3& n, bool* own_plane) {
  Container v;
  for (size_t i = 0; i < in.size(); ++i) v.push_back(Make(in[i], i, st, s, static_cast<Point*>(nullptr)));
  Collect<ConvexPolygonFactory<Point>> f;
  if (*own_plane) {
    f.Build(v.begin(), v.end());
  } else {
    // The caller's plane, of either orientation.
    P3 m = s.flip() ? n : -n;
    HalfSpace3 h = Plane(m, Dot(m, in[0]), st.scales ? GenScale(s, false) : Z(1));
    f.Build(h, v.begin(), v.end());
  }
  return std::move(f.out);
}
template <class Point>
void Both(pbt::Src& s, pbt::Ctx& c, const Loop& in, const RepStyle& st, const P3& n, bool data, bool simple, bool convex) {
  bool own = s.chance(2, 3) || in.size() < 3;
  auto out = s.chance(1, 4) ? Go<Point, std::list<Point>>(s, c, in, st, n, &own) : Go<Point, std::vector<Point>>(s, c, in, st, n, &own);
  PieceList r = CheckPieces(out, in, data);
  Chain sum;
  sum.Add(in, -1);
  P3 area = in.empty() ? P3() : AreaVec(in);
  for (size_t i = 0; i < r.loops.size(); ++i) {
    sum.Add(r.loops[i]);
    PBT_CHECK(Parallel(r.planes[i].n, n) && r.planes[i].Side(in[0]) == 0, "piece " << r.loops[i] << " is in another plane");
  }
  PBT_CHECK(sum.empty(), "the boundary of the pieces differs from the input: " << sum.Show());
  size_t flipped = 0;
  if (!area.IsZero()) for (const Pl& p : r.planes) flipped += !SameDir(p.n, area);
  if (simple) {
    PBT_CHECK(!r.loops.empty(), "no piece for a simple polygon");
    c.label("simple");
  }
  if (convex) {
    PBT_CHECK(flipped == 0, "a convex polygon gave " << flipped << " inverted pieces");
    c.label("convex");
  }
  if (simple) {
    // Simple and monotone in the dimension the library sweeps: nothing overlaps.
    int drop = n[0] != 0 ? 0 : n[1] != 0 ? 1 : 2, k = drop == 1 ? 0 : (~drop) & 1;
    int turns = 0, last = 0, first = 0;
    for (size_t i = 0; i < in.size(); ++i) {
      int d = sgn(Q(in[(i + 1) % in.size()][k] - in[i][k]));
      if (!d) continue;
      if (!first) first = d;
      if (last && d != last) ++turns;
      last = d;
    }
    if (first != last) ++turns;
    if (turns == 2) {
      PBT_CHECK(flipped == 0, "a monotone simple polygon gave " << flipped << " inverted pieces");
      c.label(convex ? "convex" : "monotone");
    }
  }
  if (flipped) c.label("some pieces inverted");
  if (r.loops.size() >= 2) c.label("2 or more pieces");
  if (r.loops.size() >= 5) c.label("5 or more pieces");
  if (!r.loops.empty()) c.nontrivial();
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  bool simple, mono;
  Loop flat = GenFlatOutline(s, &simple, &mono);
  simple = IsSimpleFlat(flat);
  bool homo = s.flip();
  Affine f = GenAffine(s, !homo);
  int p = s.draw(3);
  auto place = [&](P3 a) { return f(P3(a[(3 - p) % 3], a[(4 - p) % 3], a[(5 - p) % 3])); };
  Loop in;
  for (const P3& a : flat) in.push_back(place(a));
  P3 zero = place(IP(0, 0, 0));
  P3 n = Cross(place(IP(1, 0, 0)) - zero, place(IP(0, 1, 0)) - zero);
  RepStyle st = GenRepStyle(s);
  c << in << "\n";
  bool convex = simple && !flat.empty();
  if (convex) {
    P3 a = AreaVec(flat);
    for (size_t i = 0; i < flat.size(); ++i) for (const P3& q : flat) {
      if (Dot(Cross(flat[(i + 1) % flat.size()] - flat[i], q - flat[i]), a) < 0) convex = false;
    }
  }
  if (homo) Both<HomoPoint3>(s, c, in, st, n, false, simple, convex);
  else if (s.flip()) Both<Point3>(s, c, in, st, n, false, simple, convex);
  else Both<DataPoint>(s, c, in, st, n, true, simple, convex);
}

}  // namespace

PBT_MAIN((pbt::Property{"F01", "at least one convex piece was produced", Run, 20}))
