// F03: closed point lists that need not be planar are divided into planar
// convex polygons with the same boundary.
#include "outline.h"

using namespace gen;
using walnut::ConvexPolygonFactory;
using walnut::Point3WithVertexData;

namespace {

using DataPoint = Point3WithVertexData<Tag>;

Point3 Make(const P3& p, size_t, const RepStyle&, pbt::Src&, Point3*) { return IntP(p); }
HomoPoint3 Make(const P3& p, size_t, const RepStyle& st, pbt::Src& s, HomoPoint3*) {
  return Homo(p, st.scales ? GenScale(s, st.negative) : Z(1));
}
DataPoint Make(const P3& p, size_t i, const RepStyle&, pbt::Src&, DataPoint*) {
  Point3 q = IntP(p);
  DataPoint d(q.x(), q.y(), q.z());
  d.data.id = (long)i;
  return d;
}

// The ranges the factory works with, one by one.
template <class Container> void CheckRanges(pbt::Ctx& c, const Container& v, const Loop& in) {
  auto b = v.begin(), e = v.end();
  walnut::PlanarRange<typename Container::const_iterator> r;
  Chain own;
  own.Add(in, -1);
  size_t ranges = 0;
  while (b != e) {
    size_t before = std::distance(b, e);
    r.Build(b, e);
    ++ranges;
    PBT_CHECK(b == e || static_cast<size_t>(std::distance(b, e)) < before, "a planar range took no point");
    Loop l;
    for (auto it = r.begin(); it != r.end(); ++it) l.push_back(ToP(*it));
    PBT_CHECK(r.size() == l.size(), "planar range reports " << r.size() << " points, but has " << l.size());
    own.Add(l);
    if (r.plane().IsValid()) {
      Pl h = ToPl(r.plane());
      for (const P3& p : l) PBT_CHECK(Dot(h.n, p) == h.d, p << " of a planar range is not in its plane");
    } else {
      PBT_CHECK(r.plane().normal().IsZero(), "the plane of a range without area has a normal");
      P3 d;
      for (const P3& p : l) for (const P3& q : l) if (d.IsZero()) d = q - p;
      for (const P3& p : l) PBT_CHECK(Cross(d, p - l[0]).IsZero(), "a range without plane is not collinear");
      PBT_CHECK(b == e, "a range without plane is not the last one");
    }
  }
  PBT_CHECK(own.empty(), "the planar ranges differ from the input: " << own.Show());
  if (ranges >= 3) c.label("3 or more ranges");
}

template <class Point, class Container> void Go(pbt::Src& s, pbt::Ctx& c, const std::vector<Loop>& loops, const RepStyle& st, bool data) {
  Chain sum;
  size_t pieces = 0;
  // One factory for all of them.
  Collect<ConvexPolygonFactory<Point>> f;
  for (const Loop& in : loops) {
    Container v;
    for (size_t i = 0; i < in.size(); ++i) v.push_back(Make(in[i], i, st, s, static_cast<Point*>(nullptr)));
    f.Build(v.begin(), v.end());
    CheckRanges(c, v, in);
    auto out = std::move(f.out);
    f.out.clear();
    PieceList r = CheckPieces(out, in, data);
    Chain own;
    own.Add(in, -1);
    sum.Add(in, -1);
    for (const Loop& l : r.loops) { own.Add(l); sum.Add(l); }
    PBT_CHECK(own.empty(), "the boundary of the pieces differs from the input: " << own.Show() << " input " << in);
    pieces += r.loops.size();
    std::set<std::vector<Q>> planes;
    for (const Pl& p : r.planes) {
      int k = p.n[0] != 0 ? 0 : p.n[1] != 0 ? 1 : 2;
      planes.insert({p.n[0] / p.n[k], p.n[1] / p.n[k], p.n[2] / p.n[k], p.d / p.n[k]});
    }
    if (planes.size() >= 2) { c.nontrivial(); c.label("2 or more planes"); }
    if (planes.size() >= 4) c.label("4 or more planes");
    bool flat = true;
    P3 n;
    for (size_t i = 2; i < in.size(); ++i) for (size_t j = 1; j < i && n.IsZero(); ++j) n = Cross(in[j] - in[0], in[i] - in[0]);
    for (const P3& p : in) flat = flat && Dot(n, p - in[0]) == 0;
    if (flat) {
      // Planar after all: every piece is in that plane.
      for (const Pl& p : r.planes) PBT_CHECK(Parallel(p.n, n), "a planar list gave a piece in another plane");
      c.label("planar");
    }
  }
  if (loops.size() > 1) {
    PBT_CHECK(sum.empty(), "a closed surface is not closed after the division");
    c.label("surface");
  }
}

// A closed surface of loops: a prism or bipyramid over a ring whose vertices
// are then moved, so that no facet with more than three vertices stays planar.
std::vector<Loop> GenSurface(pbt::Src& s) {
  size_t n = s.size(3, 7);
  long r = 6;
  std::vector<P3> a, b;
  static const int cx[8] = {6, 4, 0, -4, -6, -4, 0, 4}, cy[8] = {0, 4, 6, 4, 0, -4, -6, -4};
  for (size_t i = 0; i < n; ++i) {
    auto jit = [&]() { return s.chance(1, 3) ? s.range(-r, r) : 0; };
    a.push_back(IP(cx[i] + jit(), cy[i] + jit(), 0 + jit()));
    b.push_back(IP(cx[i] + jit(), cy[i] + jit(), 5 + jit()));
  }
  std::vector<Loop> f;
  Loop bottom(a.rbegin(), a.rend()), top(b);
  f.push_back(bottom);
  f.push_back(top);
  size_t i = 0;
  while (i < n) {
    // Sides may span several ring edges.
    size_t w = std::min<size_t>(n - i, 1 + s.draw(3));
    Loop l;
    for (size_t k = 0; k <= w; ++k) l.push_back(a[(i + k) % n]);
    for (size_t k = w + 1; k-- > 0;) l.push_back(b[(i + k) % n]);
    f.push_back(l);
    i += w;
  }
  return f;
}

Loop GenLoop(pbt::Src& s) {
  Loop l;
  bool simple, mono;
  switch (s.draw(5)) {
    case 0: {  // Anything, in a small or large box.
      long r = s.flip() ? 1 : 5;
      size_t n = s.size(0, 10);
      for (size_t i = 0; i < n; ++i) l.push_back(IP(s.range(-r, r), s.range(-r, r), s.range(-r, r)));
      break;
    }
    case 1: {  // A planar outline folded along lines x = const.
      l = GenFlatOutline(s, &simple, &mono);
      long k = s.range(-2, 4), m = s.range(-3, 3);
      for (P3& p : l) if (p[0] > k) p = p + IP(0, 0, 1) * (Q(m) * (p[0] - Q(k)));
      break;
    }
    case 2: {  // Some points lifted.
      l = GenFlatOutline(s, &simple, &mono);
      if (!l.empty()) for (size_t k = 0; s.more(k, 1, 3); ++k) { P3& p = l[s.draw(l.size())]; p = p + IP(0, 0, s.range(-3, 3)); }
      break;
    }
    case 3: {  // Runs in different planes through the axis.
      size_t n = s.size(2, 5);
      for (size_t i = 0; i < n; ++i) {
        P3 d = IP(s.range(-2, 2), s.range(-2, 2), 0);
        size_t m = s.size(1, 4);
        for (size_t j = 0; j < m; ++j) l.push_back(d * Q(s.range(0, 3)) + IP(0, 0, s.range(-3, 3)));
      }
      break;
    }
    default: {  // A walk along the edges of a cube or grid.
      P3 p = IP(0, 0, 0);
      size_t n = s.size(3, 12);
      for (size_t i = 0; i < n; ++i) {
        l.push_back(p);
        P3 d;
        d[s.draw(3)] = s.flip() ? 1 : -1;
        p = p + d;
      }
      break;
    }
  }
  // Repeats and out-and-back.
  if (!l.empty()) for (size_t k = 0; s.more(k, 0, 2); ++k) {
    size_t i = s.draw(l.size());
    P3 a = l[i], b = l[(i + 1) % l.size()];
    switch (s.draw(3)) {
      case 0: l.insert(l.begin() + i, a); break;
      case 1: { P3 m = a * Q(2) - b; l.insert(l.begin() + i + 1, {m, a}); break; }
      default: l.insert(l.begin() + i, {a, b}); break;
    }
  }
  if (!l.empty() && s.flip()) std::rotate(l.begin(), l.begin() + s.draw(l.size()), l.end());
  if (s.chance(1, 3)) std::reverse(l.begin(), l.end());
  return l;
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Loop> loops;
  if (s.chance(1, 5)) loops = GenSurface(s); else loops.push_back(GenLoop(s));
  bool homo = s.flip();
  Affine f = GenAffine(s, !homo);
  for (Loop& l : loops) { for (P3& p : l) p = f(p); c << l << "\n"; }
  RepStyle st = GenRepStyle(s);
  bool list = s.chance(1, 4);
  if (homo) { if (list) Go<HomoPoint3, std::list<HomoPoint3>>(s, c, loops, st, false); else Go<HomoPoint3, std::vector<HomoPoint3>>(s, c, loops, st, false); }
  else if (s.flip()) { if (list) Go<Point3, std::list<Point3>>(s, c, loops, st, false); else Go<Point3, std::vector<Point3>>(s, c, loops, st, false); }
  else Go<DataPoint, std::vector<DataPoint>>(s, c, loops, st, true);
}

}  // namespace

PBT_MAIN((pbt::Property{"F03", "some list was divided into pieces in at least two different planes", Run, 20}))
