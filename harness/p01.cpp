// P01: classification and splitting of one convex polygon by one plane.
#include "poly.h"
#include "walnut/bsp_polygon.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::ConvexPolygon;
using walnut::ConvexPolygonSplitInfo;
using walnut::ConvexPolygonSplitRanges;
using walnut::MutableConvexPolygon;

namespace {

using TagPoly = MutableConvexPolygon<Tag>;
using BoxPoly = AABBConvexPolygon<ConvexPolygon<Tag>>;

std::vector<size_t> Expand(const std::pair<size_t, size_t>& r, size_t n) {
  std::vector<size_t> v;
  for (size_t i = r.first; i < r.second; ++i) v.push_back(i % n);
  return v;
}

// The ranges list exactly the vertices of each side, in cyclic order.
void CheckRanges(const ConvexPolygonSplitRanges& r, const std::vector<int>& side, const char* what) {
  size_t n = side.size();
  PBT_CHECK(r.neg_range.first <= r.neg_range.second && r.neg_range.second <= r.neg_range.first + n &&
            r.pos_range.first <= r.pos_range.second && r.pos_range.second <= r.pos_range.first + n,
            what << ": malformed ranges " << r);
  std::vector<int> got(n, 0);
  for (size_t i : Expand(r.neg_range, n)) got[i] = -1;
  for (size_t i : Expand(r.pos_range, n)) {
    PBT_CHECK(got[i] == 0, what << ": vertex " << i << " is on both sides in " << r);
    got[i] = 1;
  }
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(got[i] == side[i], what << ": vertex " << i << " of " << n << " is on side " << side[i] << " and reported on " << got[i] << " in " << r);
  }
}

template <class Poly>
void CheckPiece(const Poly& p, const Piece& want, const Pl& plane, int drop, const char* what) {
  CheckPoly(p, false, what);
  Loop l = FromPoly(p);
  PBT_CHECK(l == want.l, what << ": vertices " << l << " instead of " << want.l);
  PBT_CHECK(SameHalfSpace(ToPl(p.plane()), plane), what << ": plane changed");
  PBT_CHECK(p.drop_dimension() == drop, what << ": drop dimension changed");
  for (size_t i = 0; i < l.size(); ++i) {
    const Tag& t = p.edge(i);
    PBT_CHECK(t == want.tags[i], what << ": edge " << i << " carries " << t << " instead of " << want.tags[i]);
  }
  PBT_CHECK(p.IsValidState(), what << ": IsValidState is false for a valid polygon");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  Loop l = GenConvex(s, 26, s.chance(1, 3));
  size_t n = l.size();
  RepStyle st = GenRepStyle(s);
  Pl h = SplitPlane(s, l);
  HalfSpace3 hs = Plane(h.n, h.d, st.scales ? GenScale(s, false) : Z(1));
  TagPoly p = MakePoly<TagPoly>(s, l, st);
  SetTags(p, 0);
  c << "polygon " << l << "\nplane " << h << "\n";
  PBT_CHECK(FromPoly(p) == l, "constructed polygon has vertices " << FromPoly(p));
  CheckPoly(p, false, "constructed polygon");

  std::vector<int> side;
  int nn = 0, np = 0, nz = 0;
  for (const P3& v : l) {
    side.push_back(h.Side(v));
    nn += side.back() < 0;
    np += side.back() > 0;
    nz += side.back() == 0;
  }
  if (n >= 10) c.label("10 or more vertices");
  if (nz) c.label("vertex on the plane");
  if (nn && np) c.label("crossing");
  if (nn && np) c.nontrivial();
  if (nz == 2 && nn && np) c.label("plane through two vertices");
  if (nz && !(nn && np)) { c.label("touching"); c.nontrivial(); }
  if (nz == (int)n) c.label("coincident");

  const TagPoly& cp = p;
  ConvexPolygonSplitInfo info = cp.GetSplitInfo(hs);
  CheckRanges(info.ranges, side, "GetSplitInfo");
  PBT_CHECK(info.ShouldEmitNegativeChild() == (nn > 0), "negative child reported as " << info.ShouldEmitNegativeChild());
  PBT_CHECK(info.ShouldEmitPositiveChild() == (np > 0), "positive child reported as " << info.ShouldEmitPositiveChild());
  PBT_CHECK(info.ShouldEmitOnPlane() == (!nn && !np), "on plane reported as " << info.ShouldEmitOnPlane());
  PBT_CHECK(info.IsValid(n), "GetSplitInfo: invalid info");

  // Both searches, in every usable projection.
  Pl pp = ToPl(p.plane());
  for (int d = 0; d < 3; ++d) {
    if (pp.n[d] == 0) continue;
    // Eliminates coordinate d from h on the plane of the polygon.
    int i = (d + 1) % 3, j = (d + 2) % 3;
    Q f = h.n[d] / pp.n[d];
    Q hi = h.n[i] - f * pp.n[i], hj = h.n[j] - f * pp.n[j], hd = h.d - f * pp.d;
    if (hi == 0 && hj == 0) continue;
    P3 v(hi, hj, hd);
    Z den = CommonDen(v);
    if (st.scales) den *= GenScale(s, false);
    v = v * Q(den);
    HalfSpace2 h2(FromZ(v[0].get_num()), FromZ(v[1].get_num()), FromZ(v[2].get_num()));
    CheckRanges(cp.FindSplitRangesLinear(h2, d), side, "FindSplitRangesLinear");
    CheckRanges(cp.FindSplitRangesBisect(h2, d), side, "FindSplitRangesBisect");
  }

  BoxPoly bp(p);
  CheckBox(bp, "bounding box of the polygon");
  ConvexPolygonSplitInfo binfo = bp.GetSplitInfo(hs);
  CheckRanges(binfo.ranges, side, "AABBConvexPolygon::GetSplitInfo");
  PBT_CHECK(binfo.IsValid(n), "AABBConvexPolygon::GetSplitInfo: invalid info");
  if (!nn || !np) return;

  // Expected pieces: crossing points from the plane equation.
  auto pieces = ModelSplit(PieceOf(p), h);
  const Piece& neg = pieces.first;
  const Piece& pos = pieces.second;
  // The oracle itself: the areas add up.
  PBT_CHECK(AreaVec(neg.l) + AreaVec(pos.l) == AreaVec(l), "oracle: areas of the pieces");

  Pl plane = ToPl(p.plane());
  int drop = p.drop_dimension();
  {
    auto ch = cp.CreateSplitChildren(info);
    CheckPiece(ch.first, neg, plane, drop, "negative child");
    CheckPiece(ch.second, pos, plane, drop, "positive child");
    PBT_CHECK(FromPoly(p) == l, "splitting changed the original");
    CheckPoly(p, false, "original after splitting");
  }
  {
    TagPoly q(p);
    ConvexPolygonSplitInfo copy(info);
    auto ch = TagPoly::CreateSplitChildren(std::move(q).GetRValueKey(), std::move(copy));
    CheckPiece(ch.first, neg, plane, drop, "negative child of a consumed polygon");
    CheckPiece(ch.second, pos, plane, drop, "positive child of a consumed polygon");
  }
  {
    auto ch = bp.CreateSplitChildren(binfo);
    CheckPiece(ch.first, neg, plane, drop, "negative child with box");
    CheckPiece(ch.second, pos, plane, drop, "positive child with box");
    CheckBox(ch.first, "box of the negative child");
    CheckBox(ch.second, "box of the positive child");
    auto ch2 = std::move(bp).CreateSplitChildren(std::move(binfo));
    CheckPiece(ch2.first, neg, plane, drop, "negative child of a consumed polygon with box");
    CheckPiece(ch2.second, pos, plane, drop, "positive child of a consumed polygon with box");
    CheckBox(ch2.first, "box of the negative child of a consumed polygon");
    CheckBox(ch2.second, "box of the positive child of a consumed polygon");
  }
  {
    // The polygon type of a BSP tree (which keeps no user data).
    using BspPoly = walnut::BSPPolygon<AABBConvexPolygon<>>;
    BspPoly b(7, nullptr, false, p);
    ConvexPolygonSplitInfo bi = b.GetSplitInfo(hs);
    CheckRanges(bi.ranges, side, "BSPPolygon::GetSplitInfo");
    auto check = [&](const std::pair<BspPoly, BspPoly>& ch, const char* what) {
      for (int k = 0; k < 2; ++k) {
        const BspPoly& o = k ? ch.second : ch.first;
        CheckPoly(o, false, what);
        CheckBox(o, what);
        PBT_CHECK(FromPoly(o) == (k ? pos.l : neg.l), what << ": vertices " << FromPoly(o));
        PBT_CHECK(o.id == 7 && o.on_node_plane.split == nullptr, what << ": content id " << o.id);
      }
    };
    check(b.CreateSplitChildren(bi), "BSPPolygon split");
    check(std::move(b).CreateSplitChildren(std::move(bi)), "consumed BSPPolygon split");
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"P01", "the plane crosses the polygon, or touches it without crossing", Run, 20}))
